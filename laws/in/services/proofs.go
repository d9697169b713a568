package servicesunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// What a proof was asked about.

var (
	zzShuffleBeta [][]kyber.Scalar
	zzShufflePi   []int
	zzSwitchSec   kyber.Scalar
	zzSwitchVis   []kyber.Scalar
)

func zzmodel_ShuffleProofCreation(in, out []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (libunlynxshuffle.PublishedShufflingProof, error) {
	zzShuffleBeta, zzShufflePi = beta, pi
	return libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: out, G: g, H: h}, nil
}

func zzmodel_KeySwitchListProofCreation(k, q kyber.Point, sec kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) (libunlynxkeyswitch.PublishedKSListProof, error) {
	zzSwitchSec, zzSwitchVis = sec, vis
	l := libunlynxkeyswitch.PublishedKSListProof{}
	for i := range ks2s {
		l.List = append(l.List, libunlynxkeyswitch.PublishedKSProof{K: k, Q: q, Ks2: ks2s[i], RbNeg: rBNegs[i]})
	}
	return l, nil
}

// C10_ServiceShuffle: the proof of a survey's shuffle is about that shuffle.
func C10_ServiceShuffle(s *Service, tn *onet.TreeNodeInstance, sv Survey, in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) (got, want libunlynxshuffle.PublishedShufflingProof) {
	return zzShuffleProof(s, tn, sv, protocolsunlynx.ShufflingProtocolName, in, out, key, beta, pi), libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: out, G: libunlynx.SuiTe.Point().Base(), H: key}
}

// C10_ServiceNoise: the same for the shuffle of the noise.
func C10_ServiceNoise(s *Service, tn *onet.TreeNodeInstance, sv Survey, in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) (got, want libunlynxshuffle.PublishedShufflingProof) {
	return zzShuffleProof(s, tn, sv, protocolsunlynx.DROProtocolName, in, out, key, beta, pi), libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: out, G: libunlynx.SuiTe.Point().Base(), H: key}
}

func zzShuffleProof(s *Service, tn *onet.TreeNodeInstance, sv Survey, name string, in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) libunlynxshuffle.PublishedShufflingProof {
	_, a := zzInstance(s, tn, sv, name)
	if a == nil {
		return libunlynxshuffle.PublishedShufflingProof{}
	}
	return *a.(*protocolsunlynx.ShufflingProtocol).ProofFunc(in, out, key, beta, pi)
}

// C10_ServiceShuffleWitness: ... and is made from the permutation and the factors of that shuffle.
func C10_ServiceShuffleWitness(s *Service, tn *onet.TreeNodeInstance, sv Survey, in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) bool {
	zzShuffleProof(s, tn, sv, protocolsunlynx.ShufflingProtocolName, in, out, key, beta, pi)
	return zzSameWitness(beta, pi)
}

// C10_ServiceNoiseWitness: the same for the shuffle of the noise.
func C10_ServiceNoiseWitness(s *Service, tn *onet.TreeNodeInstance, sv Survey, in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) bool {
	zzShuffleProof(s, tn, sv, protocolsunlynx.DROProtocolName, in, out, key, beta, pi)
	return zzSameWitness(beta, pi)
}

func zzSameWitness(beta [][]kyber.Scalar, pi []int) bool {
	ok := len(zzShufflePi) == len(pi) && len(zzShuffleBeta) == len(beta)
	for i := range pi {
		ok = ok && zzShufflePi[i] == pi[i]
	}
	for i := range beta {
		for j := range beta[i] {
			ok = ok && zzShuffleBeta[i][j].Equal(beta[i][j])
		}
	}
	return ok
}

// C10_ServiceSwitch: the proof of a survey's key switch is about that key switch.
func C10_ServiceSwitch(s *Service, tn *onet.TreeNodeInstance, sv Survey, k, q kyber.Point, sec kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) (pre bool, got, want []libunlynxkeyswitch.PublishedKSProof) {
	if len(ks2s) != len(rBNegs) || len(ks2s) != len(vis) {
		return false, nil, nil
	}
	for i := range ks2s {
		want = append(want, libunlynxkeyswitch.PublishedKSProof{K: k, Q: q, Ks2: ks2s[i], RbNeg: rBNegs[i]})
	}
	_, a := zzInstance(s, tn, sv, protocolsunlynx.KeySwitchingProtocolName)
	if a == nil {
		return true, nil, append(want, libunlynxkeyswitch.PublishedKSProof{})
	}
	p := a.(*protocolsunlynx.KeySwitchingProtocol).ProofFunc(k, q, sec, ks2s, rBNegs, vis)
	if !zzSwitchSec.Equal(sec) || len(zzSwitchVis) != len(vis) {
		return true, nil, append(want, libunlynxkeyswitch.PublishedKSProof{})
	}
	return true, p.List, want
}

// C10_ServiceAggregation: the proof of a survey's collective aggregation is about that aggregation.
func C10_ServiceAggregation(s *Service, tn *onet.TreeNodeInstance, sv Survey, data []libunlynx.CipherVector, res libunlynx.CipherVector) (pre bool, got, want []libunlynxaggr.PublishedAggregationProof) {
	if len(data) != len(res) {
		return false, nil, nil
	}
	for i := range data {
		want = append(want, libunlynxaggr.PublishedAggregationProof{Data: data[i], AggregationResult: res[i]})
	}
	sv.DDTChannel = make(chan int, 4)
	sv.DDTChannel <- 1
	sv.DDTChannel <- 1
	_, a := zzInstance(s, tn, sv, protocolsunlynx.CollectiveAggregationProtocolName)
	if a == nil {
		return true, nil, append(want, libunlynxaggr.PublishedAggregationProof{})
	}
	return true, a.(*protocolsunlynx.CollectiveAggregationProtocol).ProofFunc(data, res).List, want
}
