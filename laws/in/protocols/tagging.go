package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func zzTagging(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar) *DeterministicTaggingProtocol {
	return &DeterministicTaggingProtocol{TreeNodeInstance: n, nextNodeInCircuit: next, SurveySecretKey: &secret,
		FeedbackChannel:           make(chan []libunlynx.DeterministCipherText, 1),
		PreviousNodeInPathChannel: make(chan deterministicTaggingBytesStruct, 2)}
}

// zzTagSent returns the ciphertexts a server sent to the next one.
func zzTagSent(k int, next *onet.TreeNode) (libunlynx.CipherVector, bool) {
	if len(zznet.Sent) <= k || zznet.Sent[k].To != zznet.Node || zznet.Sent[k].Node != next {
		return nil, false
	}
	m := DeterministicTaggingMessage{}
	err := m.FromBytes(zznet.Sent[k].Body.(*DeterministicTaggingBytesMessage).Data)
	return m.Data, err == nil
}

func zzTagTo(p *DeterministicTaggingProtocol, data libunlynx.CipherVector) bool {
	b, err := (&DeterministicTaggingMessage{Data: data}).ToBytes()
	p.PreviousNodeInPathChannel <- deterministicTaggingBytesStruct{DeterministicTaggingBytesMessage: DeterministicTaggingBytesMessage{Data: b}}
	return err == nil
}

// C08_TagStart: the run starts with the data as it is.
func C08_TagStart(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in libunlynx.CipherVector) (got, want libunlynx.CipherVector) {
	zznet.Reset()
	p := zzTagging(n, next, s)
	p.TargetOfSwitch = &in
	err := p.Start()
	out, ok := zzTagSent(0, next)
	if err != nil || !ok || len(zznet.Sent) != 1 {
		return nil, in
	}
	return out, in
}

// C08_TagNode: a server adds its part in the first round, and removes its key in the second.
func C08_TagNode(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in, in2 libunlynx.CipherVector) (pre bool, got, want libunlynx.CipherVector) {
	if n.IsRoot() {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzTagging(n, next, s)
	ok := zzTagTo(p, in)
	ok2 := zzTagTo(p, in2)
	err := p.Dispatch()
	out1, ok3 := zzTagSent(0, next)
	out2, ok4 := zzTagSent(1, next)
	for _, c := range in {
		want = append(want, libunlynx.CipherText{K: c.K, C: zzS.Point().Add(c.C, zzS.Point().Mul(s, nil))})
	}
	for _, c := range in2 {
		want = append(want, libunlynx.CipherText{K: zzS.Point().Mul(s, c.K), C: zzS.Point().Mul(s, zzOpen(n.Private(), c))})
	}
	if err != nil || !ok || !ok2 || !ok3 || !ok4 || len(zznet.Sent) != 2 || zznet.Finished != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	got = append(got, out1...)
	got = append(got, out2...)
	return true, got, want
}

// C08_TagRoot: the server that started the run does the same and gives the tags.
func C08_TagRoot(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in, in2 libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || len(in) != len(in2) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzTagging(n, next, s)
	p.TargetOfSwitch = &in
	ok := zzTagTo(p, in)
	ok2 := zzTagTo(p, in2)
	err := p.Dispatch()
	out1, ok3 := zzTagSent(0, next)
	for _, c := range in {
		want = append(want, c.K)
		want = append(want, zzS.Point().Add(c.C, zzS.Point().Mul(s, nil)))
	}
	for _, c := range in2 {
		want = append(want, zzS.Point().Mul(s, zzOpen(n.Private(), c)))
	}
	if err != nil || !ok || !ok2 || !ok3 || len(zznet.Sent) != 1 || zznet.Finished != 1 {
		return true, nil, append(want, nil)
	}
	for _, c := range out1 {
		got = append(got, c.K)
		got = append(got, c.C)
	}
	for _, c := range <-p.FeedbackChannel {
		got = append(got, c.Point)
	}
	return true, got, want
}

// zzTagOne runs a server below the root on both rounds' data, one round at a time.
func zzTagRounds(p *DeterministicTaggingProtocol, next *onet.TreeNode, d1, d2 libunlynx.CipherVector) (o1, o2 libunlynx.CipherVector, ok bool) {
	zznet.Reset()
	ok1, ok2 := zzTagTo(p, d1), zzTagTo(p, d2)
	err := p.Dispatch()
	o1, ok3 := zzTagSent(0, next)
	o2, ok4 := zzTagSent(1, next)
	return o1, o2, ok1 && ok2 && ok3 && ok4 && err == nil
}

// C08_TagWhole: over two servers, the tag of a value depends on the value and the
// servers' secrets only, however the value was encrypted.
func C08_TagWhole(n, a *onet.TreeNodeInstance, na, nr *onet.TreeNode, s, t kyber.Scalar, ms []kyber.Point, rs []kyber.Scalar) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || a.IsRoot() || len(ms) != len(rs) {
		return false, nil, nil
	}
	key := zzS.Point().Mul(zzS.Scalar().Add(n.Private(), a.Private()), nil)
	var in, d1, d2, d3 libunlynx.CipherVector
	st := zzS.Point().Mul(zzS.Scalar().Add(s, t), nil)
	for i := range ms {
		k, c := zzS.Point().Mul(rs[i], nil), zzS.Point().Add(ms[i], zzS.Point().Mul(rs[i], key))
		in = append(in, libunlynx.CipherText{K: k, C: c})
		d1 = append(d1, libunlynx.CipherText{K: k, C: zzS.Point().Add(c, zzS.Point().Mul(t, nil))})
		want = append(want, zzS.Point().Mul(zzS.Scalar().Mul(s, t), zzS.Point().Add(ms[i], st)))
	}
	// first round: a, then n
	p, q := zzTagging(n, na, s), zzTagging(a, nr, t)
	p.TargetOfSwitch = &in
	d2, _, ok := zzTagRounds(p, na, d1, d1)
	<-p.FeedbackChannel
	// second round: a on what n sent, then n
	d1b, d3, ok2 := zzTagRounds(q, nr, in, d2)
	zznet.Reset()
	ok3, ok4 := zzTagTo(p, d1b), zzTagTo(p, d3)
	err := p.Dispatch()
	_ = ok
	if !ok2 || !ok3 || !ok4 || err != nil {
		return true, nil, append(want, nil)
	}
	for _, c := range <-p.FeedbackChannel {
		got = append(got, c.Point)
	}
	return true, got, want
}

// C08_TagKey: the grouping key of a vector is made of the tags of its elements.
func C08_TagKey(cv libunlynx.CipherVector, x, s kyber.Scalar) (got, want libunlynx.GroupingKey) {
	var det libunlynx.DeterministCipherVector
	for _, c := range cv {
		det = append(det, libunlynx.DeterministCipherText{Point: zzS.Point().Mul(s, zzOpen(x, c))})
	}
	got, err := CipherVectorToDeterministicTag(cv, x, s, zzS.Point().Mul(x, nil), false)
	if err != nil {
		return "", det.Key() + "x"
	}
	return got, det.Key()
}
