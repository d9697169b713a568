package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

var zzS = libunlynx.SuiTe

func zzOpen(k kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	return zzS.Point().Sub(c.C, zzS.Point().Mul(k, c.K))
}

func zzEqual(a, b libunlynx.CipherText) bool { return a.K.Equal(b.K) && a.C.Equal(b.C) }

func zzKS(n *onet.TreeNodeInstance) *KeySwitchingProtocol {
	return &KeySwitchingProtocol{TreeNodeInstance: n,
		FeedbackChannel:  make(chan libunlynx.CipherVector, 1),
		DownChannel:      make(chan DownBytesStruct, 1),
		LengthChannel:    make(chan []LengthStruct, 1),
		ChildDataChannel: make(chan []UpBytesStruct, 1)}
}

// C08_KSStart: the announcement names the new key and every ciphertext to be switched.
func C08_KSStart(n *onet.TreeNodeInstance, key kyber.Point, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	if n.IsLeaf() {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzKS(n)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	if p.Start() != nil || len(zznet.Sent) != 1 || zznet.Sent[0].To != zznet.Children {
		return true, nil, append(want, key)
	}
	got, err := libunlynx.FromBytesToAbstractPoints(zznet.Sent[0].Body.(*DownMessageBytes).Data)
	if err != nil {
		return true, nil, append(want, key)
	}
	want = append(want, key)
	for _, c := range target {
		want = append(want, c.K)
	}
	return true, got, want
}

// zzKSSent are the messages sent to the parent, once the announcement went to the children, if there are any.
func zzKSSent(n *onet.TreeNodeInstance) (l *LengthMessage, u *UpBytesMessage, ok bool) {
	down := 0
	for _, m := range zznet.Sent {
		switch b := m.Body.(type) {
		case *DownMessageBytes:
			if m.To != zznet.Children {
				return nil, nil, false
			}
			down++
		case *LengthMessage:
			if m.To != zznet.Parent || l != nil {
				return nil, nil, false
			}
			l = b
		case *UpBytesMessage:
			if m.To != zznet.Parent || u != nil {
				return nil, nil, false
			}
			u = b
		default:
			return nil, nil, false
		}
	}
	return l, u, l != nil && u != nil && (down == 1 || down == 0 && n.IsLeaf())
}

// zzKSNode runs a server other than the root on an announcement, with the given contributions of its children.
func zzKSNode(p *KeySwitchingProtocol, key kyber.Point, target libunlynx.CipherVector) error {
	points := []kyber.Point{key}
	for _, c := range target {
		points = append(points, c.K)
	}
	data, err := libunlynx.AbstractPointsToBytes(points)
	if err != nil {
		return err
	}
	p.DownChannel <- DownBytesStruct{DownMessageBytes: DownMessageBytes{Data: data}}
	return p.Dispatch()
}

// C08_KSLeaf: a leaf contributes its share of the switch of every ciphertext.
func C08_KSLeaf(n *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre, ok bool) {
	if n.IsRoot() || !n.IsLeaf() {
		return false, false
	}
	zznet.Reset()
	p, key := zzKS(n), zzS.Point().Mul(x, nil)
	if zzKSNode(p, key, target) != nil || zznet.Finished != 1 {
		return true, false
	}
	_, u, sent := zzKSSent(n)
	cv := libunlynx.CipherVector{}
	if !sent || cv.FromBytes(u.Data, len(target)) != nil {
		return true, false
	}
	// whoever holds the secret of the new key opens each part to -k*K
	for i, c := range cv {
		if !zzOpen(x, c).Equal(zzS.Point().Neg(zzS.Point().Mul(n.Private(), target[i].K))) {
			return true, false
		}
	}
	return true, len(cv) == len(target)
}

// zzKSLeafUp runs a leaf and returns what it sends up.
func zzKSLeafUp(n *onet.TreeNodeInstance, key kyber.Point, target libunlynx.CipherVector) (l LengthStruct, u UpBytesStruct, ok bool) {
	zznet.Reset()
	if zzKSNode(zzKS(n), key, target) != nil {
		return l, u, false
	}
	length, data, ok := zzKSSent(n)
	if !ok {
		return l, u, false
	}
	return LengthStruct{LengthMessage: *length}, UpBytesStruct{UpBytesMessage: *data}, true
}

// C08_KSInner: an inner server adds its own share to those of all its children.
func C08_KSInner(n, a, b *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre, ok bool) {
	if n.IsRoot() || n.IsLeaf() || a.IsRoot() || !a.IsLeaf() || b.IsRoot() || !b.IsLeaf() {
		return false, false
	}
	key := zzS.Point().Mul(x, nil)
	la, ua, ok1 := zzKSLeafUp(a, key, target)
	lb, ub, ok2 := zzKSLeafUp(b, key, target)
	zznet.Reset()
	p := zzKS(n)
	p.LengthChannel <- []LengthStruct{la, lb}
	p.ChildDataChannel <- []UpBytesStruct{ua, ub}
	if !ok1 || !ok2 || zzKSNode(p, key, target) != nil {
		return true, false
	}
	_, u, sent := zzKSSent(n)
	cv := libunlynx.CipherVector{}
	if !sent || cv.FromBytes(u.Data, len(target)) != nil {
		return true, false
	}
	sum := zzS.Scalar().Add(n.Private(), zzS.Scalar().Add(a.Private(), b.Private()))
	for i, c := range cv {
		if !zzOpen(x, c).Equal(zzS.Point().Neg(zzS.Point().Mul(sum, target[i].K))) {
			return true, false
		}
	}
	return true, len(cv) == len(target) && zznet.Finished == 1
}

// C08_KSTree: after a run over three servers every plaintext is the same under the new key.
func C08_KSTree(n, a, b *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || n.IsLeaf() || a.IsRoot() || !a.IsLeaf() || b.IsRoot() || !b.IsLeaf() {
		return false, nil, nil
	}
	key := zzS.Point().Mul(x, nil)
	la, ua, ok1 := zzKSLeafUp(a, key, target)
	lb, ub, ok2 := zzKSLeafUp(b, key, target)
	zznet.Reset()
	p := zzKS(n)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	p.LengthChannel <- []LengthStruct{la, lb}
	p.ChildDataChannel <- []UpBytesStruct{ua, ub}
	if !ok1 || !ok2 || p.Start() != nil || p.Dispatch() != nil {
		return true, nil, append(want, key)
	}
	sum := zzS.Scalar().Add(n.Private(), zzS.Scalar().Add(a.Private(), b.Private()))
	for i, c := range <-p.FeedbackChannel {
		got = append(got, zzOpen(x, c))
		want = append(want, zzOpen(sum, target[i]))
	}
	return true, got, want
}

// C08_KSTreeSize: a run gives one ciphertext for each one it was given.
func C08_KSTreeSize(n, a *onet.TreeNodeInstance, key kyber.Point, target libunlynx.CipherVector) (pre bool, got, want int) {
	if !n.IsRoot() || n.IsLeaf() || a.IsRoot() || !a.IsLeaf() {
		return false, 0, 0
	}
	la, ua, ok := zzKSLeafUp(a, key, target)
	zznet.Reset()
	p := zzKS(n)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	p.LengthChannel <- []LengthStruct{la}
	p.ChildDataChannel <- []UpBytesStruct{ua}
	if !ok || p.Start() != nil || p.Dispatch() != nil {
		return true, -1, 0
	}
	return true, len(<-p.FeedbackChannel), len(target)
}

// C08_KSAlone: a single server switches the key on its own.
func C08_KSAlone(n *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || !n.IsLeaf() {
		return false, nil, nil
	}
	zznet.Reset()
	p, key := zzKS(n), zzS.Point().Mul(x, nil)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	if p.Start() != nil || p.Dispatch() != nil || zznet.Finished != 1 {
		return true, nil, append(want, key)
	}
	for i, c := range <-p.FeedbackChannel {
		got = append(got, zzOpen(x, c))
		want = append(want, zzOpen(n.Private(), target[i]))
	}
	return true, got, want
}

// C08_KSProof: the proof a server publishes is accepted and is about the share it sends.
func C08_KSProof(n *onet.TreeNodeInstance, key kyber.Point, target libunlynx.CipherVector) (pre, ok bool) {
	if n.IsRoot() || !n.IsLeaf() || !n.Public().Equal(zzS.Point().Mul(n.Private(), nil)) {
		return false, false
	}
	zznet.Reset()
	p := zzKS(n)
	p.Proofs = true
	var proofs []*libunlynxkeyswitch.PublishedKSListProof
	p.ProofFunc = func(pub, target kyber.Point, sec kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
		l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, sec, ks2s, rBNegs, vis)
		if err != nil {
			return nil
		}
		proofs = append(proofs, &l)
		return &l
	}
	if zzKSNode(p, key, target) != nil || len(proofs) != 1 {
		return true, false
	}
	_, u, sent := zzKSSent(n)
	cv := libunlynx.CipherVector{}
	if !sent || cv.FromBytes(u.Data, len(target)) != nil {
		return true, false
	}
	l := proofs[0]
	if len(l.List) != len(target) || !libunlynxkeyswitch.KeySwitchListProofVerification(*l, 1.0) {
		return true, false
	}
	for i, q := range l.List {
		if !q.K.Equal(n.Public()) || !q.Q.Equal(key) || !q.Ks2.Equal(cv[i].C) && !zzS.Point().Add(q.Ks2, q.ViB).Equal(cv[i].C) {
			return true, false
		}
	}
	return true, true
}

// C10_KSRoot: the proof of the server that starts a key switch is about the share it adds itself.
func C10_KSRoot(n *onet.TreeNodeInstance, key kyber.Point, target libunlynx.CipherVector) (pre, ok bool) {
	if !n.IsRoot() || !n.Public().Equal(zzS.Point().Mul(n.Private(), nil)) {
		return false, false
	}
	zznet.Reset()
	p := zzKS(n)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	p.Proofs = true
	var proofs []*libunlynxkeyswitch.PublishedKSListProof
	p.ProofFunc = func(pub, target kyber.Point, sec kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
		l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, sec, ks2s, rBNegs, vis)
		if err != nil {
			return nil
		}
		proofs = append(proofs, &l)
		return &l
	}
	if p.Start() != nil || len(proofs) != 1 || p.NodeContribution == nil || len(*p.NodeContribution) != len(target) {
		return true, false
	}
	l := proofs[0]
	if len(l.List) != len(target) || !libunlynxkeyswitch.KeySwitchListProofVerification(*l, 1.0) {
		return true, false
	}
	for i, q := range l.List {
		if !q.K.Equal(n.Public()) || !q.Q.Equal(key) || !q.Ks2.Equal((*p.NodeContribution)[i].C) {
			return true, false
		}
	}
	return true, true
}

// zzKSWide runs a tree in which all other servers are children of the first one.
func zzKSWide(n *onet.TreeNodeInstance, children []*onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	key := zzS.Point().Mul(x, nil)
	var ls []LengthStruct
	var us []UpBytesStruct
	sum := n.Private()
	for _, m := range children {
		if m.IsRoot() || !m.IsLeaf() {
			return false, nil, nil
		}
		l, u, ok := zzKSLeafUp(m, key, target)
		if !ok {
			return true, nil, append(want, key)
		}
		ls, us = append(ls, l), append(us, u)
		sum = zzS.Scalar().Add(sum, m.Private())
	}
	zznet.Reset()
	p := zzKS(n)
	p.TargetOfSwitch, p.TargetPublicKey = &target, &key
	p.LengthChannel <- ls
	p.ChildDataChannel <- us
	if p.Start() != nil || p.Dispatch() != nil {
		return true, nil, append(want, key)
	}
	for i, c := range <-p.FeedbackChannel {
		got = append(got, zzOpen(x, c))
		want = append(want, zzOpen(sum, target[i]))
	}
	return n.IsRoot() && !n.IsLeaf(), got, want
}

// C08_KSThree: every child's share counts, also that of a third one.
func C08_KSThree(n, a, b, c *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	return zzKSWide(n, []*onet.TreeNodeInstance{a, b, c}, x, target)
}

// C08_KSFive: and those of the others.
func C08_KSFive(n, a, b *onet.TreeNodeInstance, x kyber.Scalar, target libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	return zzKSWide(n, []*onet.TreeNodeInstance{a, b, a, a, b}, x, target)
}
