package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func zzDDT(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar) *ShufflingPlusDDTProtocol {
	return &ShufflingPlusDDTProtocol{TreeNodeInstance: n, nextNodeInCircuit: next, SurveySecretKey: &secret,
		FeedbackChannel:           make(chan []libunlynx.DeterministCipherVector, 1),
		LengthNodeChannel:         make(chan shufflingPlusDDTBytesLengthStruct, 1),
		PreviousNodeInPathChannel: make(chan shufflingPlusDDTBytesStruct, 1)}
}

// zzDDTSent returns the message a server sent to the next one.
func zzDDTSent(next *onet.TreeNode) (m ShufflingPlusDDTMessage, ok bool) {
	if len(zznet.Sent) != 2 || zznet.Sent[0].To != zznet.Node || zznet.Sent[1].To != zznet.Node || zznet.Sent[0].Node != next || zznet.Sent[1].Node != next {
		return m, false
	}
	x, y := zznet.Sent[0].Body, zznet.Sent[1].Body
	if _, ok := x.(*ShufflingPlusDDTBytesMessage); ok {
		x, y = y, x
	}
	l, ok1 := x.(*ShufflingPlusDDTBytesLength)
	b, ok2 := y.(*ShufflingPlusDDTBytesMessage)
	if !ok1 || !ok2 {
		return m, false
	}
	err := m.FromBytes(b.Data, b.ShuffKey, l.CVLengths)
	return m, err == nil
}

// zzDDTTo hands data to a server as the previous one sends it, and runs it.
func zzDDTTo(p *ShufflingPlusDDTProtocol, m ShufflingPlusDDTMessage) error {
	b, l, err := m.ToBytes()
	if err != nil {
		return err
	}
	k, err := libunlynx.AbstractPointsToBytes([]kyber.Point{m.ShuffKey})
	if err != nil {
		return err
	}
	p.LengthNodeChannel <- shufflingPlusDDTBytesLengthStruct{ShufflingPlusDDTBytesLength: ShufflingPlusDDTBytesLength{CVLengths: l}}
	p.PreviousNodeInPathChannel <- shufflingPlusDDTBytesStruct{ShufflingPlusDDTBytesMessage: ShufflingPlusDDTBytesMessage{Data: b, ShuffKey: k}}
	return p.Dispatch()
}

// C08_DDTStart: the run starts with the data as it is and the servers' collective key.
func C08_DDTStart(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in []libunlynx.CipherVector) (got, want []libunlynx.CipherVector) {
	zznet.Reset()
	p := zzDDT(n, next, s)
	p.TargetData = &in
	err := p.Start()
	m, ok := zzDDTSent(next)
	if err != nil || !ok || !m.ShuffKey.Equal(n.Tree().Roster.Aggregate) {
		return nil, append(in, nil)
	}
	return m.Data, in
}

// C08_DDTKey: a server takes its own key out of the key for the next one.
func C08_DDTKey(n *onet.TreeNodeInstance, next *onet.TreeNode, x, s kyber.Scalar, in []libunlynx.CipherVector, w int) (pre, ok bool) {
	if n.IsRoot() || !zzTable(in, w) {
		return false, false
	}
	zznet.Reset()
	p := zzDDT(n, next, s)
	key := zzS.Point().Mul(x, nil)
	err := zzDDTTo(p, ShufflingPlusDDTMessage{Data: in, ShuffKey: key})
	m, ok := zzDDTSent(next)
	return true, ok && err == nil && zznet.Finished == 1 && m.ShuffKey.Equal(zzS.Point().Sub(zzS.Point().Mul(x, nil), n.Public()))
}

// zzColumns adds up the values of every column: the same for all orders of the lines.
func zzColumns(v [][]kyber.Point, w int) (out []kyber.Point) {
	for j := 0; j < w; j++ {
		sum := zzS.Point().Null()
		for i := range v {
			sum = zzS.Point().Add(sum, v[i][j])
		}
		out = append(out, sum)
	}
	return out
}

// C08_DDTNode: a server takes its key out and adds its part to every value, in some order of the lines.
func C08_DDTNode(n *onet.TreeNodeInstance, next *onet.TreeNode, x, s kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want []kyber.Point) {
	if n.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzDDT(n, next, s)
	all := zzS.Scalar().Add(x, n.Private())
	err := zzDDTTo(p, ShufflingPlusDDTMessage{Data: in, ShuffKey: zzS.Point().Mul(all, nil)})
	m, ok := zzDDTSent(next)
	var lines [][]kyber.Point
	for i := range in {
		var line []kyber.Point
		for j := range in[i] {
			line = append(line, zzS.Point().Mul(s, zzS.Point().Add(zzOpen(all, in[i][j]), zzS.Point().Mul(s, nil))))
		}
		lines = append(lines, line)
	}
	want = zzColumns(lines, w)
	if err != nil || !ok || zznet.Finished != 1 {
		return true, nil, append(want, nil)
	}
	return true, zzColumns(zzOpened(x, m.Data, nil), w), want
}

// C08_DDTRoot: the server that started the run comes last and gives the tags.
func C08_DDTRoot(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	zznet.Reset()
	p := zzDDT(n, next, s)
	p.TargetData = &in
	err := zzDDTTo(p, ShufflingPlusDDTMessage{Data: in, ShuffKey: zzS.Point().Mul(n.Private(), nil)})
	var lines, tags [][]kyber.Point
	for i := range in {
		var line []kyber.Point
		for j := range in[i] {
			line = append(line, zzS.Point().Mul(s, zzS.Point().Add(zzOpen(n.Private(), in[i][j]), zzS.Point().Mul(s, nil))))
		}
		lines = append(lines, line)
	}
	want = zzColumns(lines, w)
	if err != nil || len(zznet.Sent) != 0 || zznet.Finished != 1 {
		return true, nil, append(want, nil)
	}
	for _, v := range <-p.FeedbackChannel {
		var line []kyber.Point
		for _, c := range v {
			line = append(line, c.Point)
		}
		tags = append(tags, line)
	}
	return true, zzColumns(tags, w), want
}

// C08_DDTWhole: over two servers, the tags depend on the values and the servers' secrets only.
func C08_DDTWhole(n, a *onet.TreeNodeInstance, na, nr *onet.TreeNode, s, t kyber.Scalar, in []libunlynx.CipherVector, w int) (pre bool, got, want []kyber.Point) {
	if !n.IsRoot() || a.IsRoot() || !zzTable(in, w) {
		return false, nil, nil
	}
	all := zzS.Scalar().Add(n.Private(), a.Private())
	zznet.Reset()
	q, p := zzDDT(a, nr, t), zzDDT(n, na, s)
	p.TargetData = &in
	err := zzDDTTo(q, ShufflingPlusDDTMessage{Data: in, ShuffKey: zzS.Point().Mul(all, nil)})
	m, ok := zzDDTSent(nr)
	zznet.Reset()
	err2 := zzDDTTo(p, m)
	var lines, tags [][]kyber.Point
	for i := range in {
		var line []kyber.Point
		for j := range in[i] {
			v := zzS.Point().Mul(t, zzS.Point().Add(zzOpen(all, in[i][j]), zzS.Point().Mul(t, nil)))
			line = append(line, zzS.Point().Mul(s, zzS.Point().Add(v, zzS.Point().Mul(s, nil))))
		}
		lines = append(lines, line)
	}
	want = zzColumns(lines, w)
	if err != nil || err2 != nil || !ok {
		return true, nil, append(want, nil)
	}
	for _, v := range <-p.FeedbackChannel {
		var line []kyber.Point
		for _, c := range v {
			line = append(line, c.Point)
		}
		tags = append(tags, line)
	}
	return true, zzColumns(tags, w), want
}
