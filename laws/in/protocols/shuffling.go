package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func zzShuffling(n *onet.TreeNodeInstance, key kyber.Point) *ShufflingProtocol {
	return &ShufflingProtocol{TreeNodeInstance: n, CollectiveKey: key,
		FeedbackChannel:           make(chan []libunlynx.CipherVector, 1),
		LengthNodeChannel:         make(chan shufflingBytesLengthStruct, 1),
		PreviousNodeInPathChannel: make(chan shufflingBytesStruct, 1)}
}

// zzShuffleSent returns the vectors a server sent to the next one.
func zzShuffleSent(next *onet.TreeNode) ([]libunlynx.CipherVector, bool) {
	if len(zznet.Sent) != 2 || zznet.Sent[0].To != zznet.Node || zznet.Sent[1].To != zznet.Node || zznet.Sent[0].Node != next || zznet.Sent[1].Node != next {
		return nil, false
	}
	a, b := zznet.Sent[0].Body, zznet.Sent[1].Body
	if _, ok := a.(*ShufflingBytesMessage); ok {
		a, b = b, a
	}
	l, ok1 := a.(*ShufflingBytesMessageLength)
	d, ok2 := b.(*ShufflingBytesMessage)
	if !ok1 || !ok2 {
		return nil, false
	}
	sm := ShufflingMessage{}
	err := sm.FromBytes(d.Data, l.CVLengths)
	return sm.Data, err == nil
}

// zzShuffleTo hands data to a server as the previous one sends it.
func zzShuffleTo(p *ShufflingProtocol, data []libunlynx.CipherVector) error {
	b, l, err := (&ShufflingMessage{Data: data}).ToBytes()
	if err != nil {
		return err
	}
	p.LengthNodeChannel <- shufflingBytesLengthStruct{ShufflingBytesMessageLength: ShufflingBytesMessageLength{CVLengths: l}}
	p.PreviousNodeInPathChannel <- shufflingBytesStruct{ShufflingBytesMessage: ShufflingBytesMessage{Data: b}}
	return p.Dispatch()
}

// zzProof keeps what a proof is asked for.
type zzProof struct {
	in, out []libunlynx.CipherVector
	key     kyber.Point
	pi      []int
	calls   int
}

func (z *zzProof) fn(in, out []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
	z.in, z.out, z.key, z.pi = in, out, key, pi
	z.calls++
	return nil
}

func zzTable(v []libunlynx.CipherVector, n int) bool {
	for i := range v {
		if len(v[i]) != n {
			return false
		}
	}
	return len(v) > 0 && n > 0
}

// zzOpened are the opened values, line perm[i] of in at place i.
func zzOpened(x kyber.Scalar, in []libunlynx.CipherVector, perm []int) (out [][]kyber.Point) {
	for i := range in {
		k := i
		if perm != nil {
			k = perm[i]
		}
		var line []kyber.Point
		for j := range in[k] {
			line = append(line, zzOpen(x, in[k][j]))
		}
		out = append(out, line)
	}
	return out
}

// C08_ShuffleStart: the first server sends on a reordering of its data that opens to the same values.
func C08_ShuffleStart(n *onet.TreeNodeInstance, next *onet.TreeNode, x kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want [][]kyber.Point) {
	if !zzTable(in, w) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzShuffling(n, zzS.Point().Mul(x, nil))
	z := &zzProof{}
	p.ShuffleTarget, p.nextNodeInCircuit, p.Proofs, p.ProofFunc = &in, next, true, z.fn
	err := p.Start()
	out, ok := zzShuffleSent(next)
	want = zzOpened(x, in, z.pi)
	if err != nil || !ok || z.calls != 1 {
		return true, nil, append(want, nil)
	}
	return true, zzOpened(x, out, nil), want
}

// C08_ShuffleNext: every other server does the same with what it receives.
func C08_ShuffleNext(n *onet.TreeNodeInstance, next *onet.TreeNode, x kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want [][]kyber.Point) {
	if n.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzShuffling(n, zzS.Point().Mul(x, nil))
	z := &zzProof{}
	p.nextNodeInCircuit, p.Proofs, p.ProofFunc = next, true, z.fn
	err := zzShuffleTo(p, in)
	out, ok := zzShuffleSent(next)
	want = zzOpened(x, in, z.pi)
	if err != nil || !ok || z.calls != 1 || zznet.Finished != 1 {
		return true, nil, append(want, nil)
	}
	return true, zzOpened(x, out, nil), want
}

// C08_ShuffleEnd: the first server gives what the last one sends, as it is.
func C08_ShuffleEnd(n *onet.TreeNodeInstance, x kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want []libunlynx.CipherVector) {
	if !n.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzShuffling(n, zzS.Point().Mul(x, nil))
	if zzShuffleTo(p, in) != nil || len(zznet.Sent) != 0 || zznet.Finished != 1 {
		return true, nil, in
	}
	return true, <-p.FeedbackChannel, in
}

// C08_ShuffleKey: without a key of its own a run uses the servers' collective key.
func C08_ShuffleKey(n *onet.TreeNodeInstance, next *onet.TreeNode, x kyber.Scalar, in []libunlynx.CipherVector, w int, root bool) (pre, ok bool) {
	if !zzTable(in, w) || !root && n.IsRoot() {
		return false, false
	}
	zznet.Reset()
	p := zzShuffling(n, nil)
	z := &zzProof{}
	p.ShuffleTarget, p.nextNodeInCircuit, p.Proofs, p.ProofFunc = &in, next, true, z.fn
	var err error
	if root {
		err = p.Start()
	} else {
		err = zzShuffleTo(p, in)
	}
	return true, err == nil && z.key.Equal(n.Roster().Aggregate)
}

// C08_ShuffleProof: the published proof is about the data received and the data sent.
func C08_ShuffleProof(n *onet.TreeNodeInstance, next *onet.TreeNode, x kyber.Scalar, in []libunlynx.CipherVector, w int, root bool) (pre bool, got, want []libunlynx.CipherVector) {
	key := zzS.Point().Mul(x, nil)
	if !zzTable(in, w) || !root && n.IsRoot() {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzShuffling(n, key)
	z := &zzProof{}
	p.ShuffleTarget, p.nextNodeInCircuit, p.Proofs, p.ProofFunc = &in, next, true, z.fn
	var err error
	if root {
		err = p.Start()
	} else {
		err = zzShuffleTo(p, in)
	}
	out, ok := zzShuffleSent(next)
	want = append(want, in...)
	want = append(want, out...)
	if err != nil || !ok || !z.key.Equal(key) {
		return true, nil, want
	}
	got = append(got, z.in...)
	got = append(got, z.out...)
	return true, got, want
}

// C08_ShuffleFresh: no ciphertext leaves a server as it came in.
func C08_ShuffleFresh(n *onet.TreeNodeInstance, next *onet.TreeNode, key kyber.Point, in []libunlynx.CipherVector, w int) (pre, ok bool) {
	if n.IsRoot() || !zzTable(in, w) {
		return false, false
	}
	zznet.Reset()
	p := zzShuffling(n, key)
	z := &zzProof{}
	p.nextNodeInCircuit, p.Proofs, p.ProofFunc = next, true, z.fn
	if zzShuffleTo(p, in) != nil {
		return true, false
	}
	out, ok := zzShuffleSent(next)
	for i := range in {
		for j := range in[i] {
			ok = ok && !out[i][j].K.Equal(in[z.pi[i]][j].K) && !out[i][j].C.Equal(in[z.pi[i]][j].C)
		}
	}
	return true, ok
}

// C08_ShuffleWhole: a run over three servers opens to a reordering of the values given.
func C08_ShuffleWhole(n, a, b *onet.TreeNodeInstance, na, nb, nr *onet.TreeNode, x kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want [][]kyber.Point) {
	if !n.IsRoot() || a.IsRoot() || b.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	key := zzS.Point().Mul(x, nil)
	p, q, r := zzShuffling(n, key), zzShuffling(a, key), zzShuffling(b, key)
	z1, z2, z3 := &zzProof{}, &zzProof{}, &zzProof{}
	p.ShuffleTarget, p.nextNodeInCircuit, p.Proofs, p.ProofFunc = &in, na, true, z1.fn
	q.nextNodeInCircuit, q.Proofs, q.ProofFunc = nb, true, z2.fn
	r.nextNodeInCircuit, r.Proofs, r.ProofFunc = nr, true, z3.fn
	zznet.Reset()
	err := p.Start()
	d1, ok1 := zzShuffleSent(na)
	zznet.Reset()
	err2 := zzShuffleTo(q, d1)
	d2, ok2 := zzShuffleSent(nb)
	zznet.Reset()
	err3 := zzShuffleTo(r, d2)
	d3, ok3 := zzShuffleSent(nr)
	zznet.Reset()
	err4 := zzShuffleTo(p, d3)
	if err != nil || err2 != nil || err3 != nil || err4 != nil || !ok1 || !ok2 || !ok3 {
		return true, nil, append(want, nil)
	}
	perm := make([]int, len(in))
	for i := range perm {
		perm[i] = z1.pi[z2.pi[z3.pi[i]]]
	}
	return true, zzOpened(x, <-p.FeedbackChannel, nil), zzOpened(x, in, perm)
}
