package protocolsunlynxutils

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// C08_AddServer: the run gives every ciphertext, readable with the new server's key as well.
func C08_AddServer(n *onet.TreeNodeInstance, k, kNew kyber.Scalar, in []libunlynx.CipherText, proofs bool) (pre bool, got, want []kyber.Point) {
	if len(in) == 0 {
		return false, nil, nil
	}
	zznet.Reset()
	pi, _ := NewAddRmProtocol(n)
	p := pi.(*AddRmServerProtocol)
	p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = in, kNew, true, proofs
	for i := range in {
		want = append(want, zzOpen(k, in[i]), in[i].K)
	}
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, want
	}
	sum := libunlynx.SuiTe.Scalar().Add(k, kNew)
	for _, c := range <-p.FeedbackChannel {
		got = append(got, zzOpen(sum, c), c.K)
	}
	return true, got, want
}

// C08_RemoveServer: the run gives every ciphertext, readable without the removed server's key.
func C08_RemoveServer(n *onet.TreeNodeInstance, k, kRm kyber.Scalar, in []libunlynx.CipherText, proofs bool) (pre bool, got, want []kyber.Point) {
	if len(in) == 0 {
		return false, nil, nil
	}
	zznet.Reset()
	pi, _ := NewAddRmProtocol(n)
	p := pi.(*AddRmServerProtocol)
	p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = in, kRm, false, proofs
	for i := range in {
		want = append(want, zzOpen(k, in[i]), in[i].K)
	}
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, want
	}
	rest := libunlynx.SuiTe.Scalar().Sub(k, kRm)
	for _, c := range <-p.FeedbackChannel {
		got = append(got, zzOpen(rest, c), c.K)
	}
	return true, got, want
}

// C08_LocalSame: responses of one group are added up.
func C08_LocalSame(n *onet.TreeNodeInstance, key libunlynx.GroupingKey, x, y libunlynx.FilteredResponse) (pre bool, got, want libunlynx.CipherVector) {
	if len(x.AggregatingAttributes) != len(y.AggregatingAttributes) {
		return false, nil, nil
	}
	zznet.Reset()
	pi, _ := NewLocalAggregationProtocol(n)
	p := pi.(*LocalAggregationProtocol)
	p.TargetOfAggregation = []libunlynx.FilteredResponseDet{{DetTagGroupBy: key, Fr: x}, {DetTagGroupBy: key, Fr: y}}
	s := libunlynx.SuiTe
	for i := range x.AggregatingAttributes {
		a, b := x.AggregatingAttributes[i], y.AggregatingAttributes[i]
		want = append(want, libunlynx.CipherText{K: s.Point().Add(a.K, b.K), C: s.Point().Add(a.C, b.C)})
	}
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	out := <-p.FeedbackChannel
	if len(out) != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	return true, out[key].AggregatingAttributes, want
}

// C08_LocalDifferent: responses of different groups stay apart.
func C08_LocalDifferent(n *onet.TreeNodeInstance, k1, k2 libunlynx.GroupingKey, x, y libunlynx.FilteredResponse) (pre bool, got, want []libunlynx.CipherVector) {
	if k1 == k2 {
		return false, nil, nil
	}
	zznet.Reset()
	pi, _ := NewLocalAggregationProtocol(n)
	p := pi.(*LocalAggregationProtocol)
	p.TargetOfAggregation = []libunlynx.FilteredResponseDet{{DetTagGroupBy: k1, Fr: x}, {DetTagGroupBy: k2, Fr: y}}
	want = []libunlynx.CipherVector{x.AggregatingAttributes, x.GroupByEnc, y.AggregatingAttributes, y.GroupByEnc}
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, append(want, nil)
	}
	out := <-p.FeedbackChannel
	if len(out) != 2 {
		return true, nil, append(want, nil)
	}
	return true, []libunlynx.CipherVector{out[k1].AggregatingAttributes, out[k1].GroupByEnc, out[k2].AggregatingAttributes, out[k2].GroupByEnc}, want
}

// C08_ProofsChecked: each kind of proof is checked, all of them, and reported in its place.
func C08_ProofsChecked(n *onet.TreeNodeInstance, t ProofsToVerify) (pre bool, got, want []bool) {
	for _, x := range t.AggregationProofs.List {
		if len(x.Data) == 0 {
			return false, nil, nil
		}
	}
	for _, x := range t.CollectiveAggregationProofs.List {
		if len(x.Data) == 0 {
			return false, nil, nil
		}
	}
	zznet.Reset()
	pi, _ := NewProofsVerificationProtocol(n)
	p := pi.(*ProofsVerificationProtocol)
	p.TargetOfVerification = t
	want = []bool{
		libunlynxkeyswitch.KeySwitchListProofVerification(t.KeySwitchingProofs, 1.0),
		libunlynxdetertag.DeterministicTagCrListProofVerification(t.DetTagCreationProofs, 1.0),
		libunlynxdetertag.DeterministicTagAdditionListProofVerification(t.DetTagAdditionProofs, 1.0),
		libunlynxaggr.AggregationListProofVerification(t.AggregationProofs, 1.0),
		libunlynxshuffle.ShuffleListProofVerification(t.ShufflingProofs, n.Roster().Aggregate, 1.0),
		libunlynxaggr.AggregationListProofVerification(t.CollectiveAggregationProofs, 1.0),
	}
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, want
	}
	return true, <-p.FeedbackChannel, want
}
