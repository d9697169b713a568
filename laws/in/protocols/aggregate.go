package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/onet/v3"
)

type zzGroups = map[libunlynx.GroupingKey]libunlynx.FilteredResponse

func zzAgg(n *onet.TreeNodeInstance, data zzGroups) *CollectiveAggregationProtocol {
	p := &CollectiveAggregationProtocol{TreeNodeInstance: n,
		FeedbackChannel:      make(chan CothorityAggregatedData, 1),
		DataReferenceChannel: make(chan dataReferenceStruct, 1),
		LengthNodeChannel:    make(chan []cadmbLengthStruct, 1),
		ChildDataChannel:     make(chan []childAggregatedDataBytesStruct, 1)}
	if data != nil {
		p.GroupedData = &data
	}
	return p
}

// zzAggUp runs a server below the root and returns what its parent receives from it.
func zzAggUp(p *CollectiveAggregationProtocol, node *onet.TreeNode) (l cadmbLengthStruct, d childAggregatedDataBytesStruct, ok bool) {
	zznet.Reset()
	p.DataReferenceChannel <- dataReferenceStruct{}
	if p.Dispatch() != nil || zznet.Finished != 1 {
		return l, d, false
	}
	down, lengths, datas := 0, 0, 0
	for _, m := range zznet.Sent {
		switch b := m.Body.(type) {
		case *DataReferenceMessage:
			if m.To != zznet.Children {
				return l, d, false
			}
			down++
		case *CADBLengthMessage:
			if m.To != zznet.Parent {
				return l, d, false
			}
			l = cadmbLengthStruct{node, *b}
			lengths++
		case *ChildAggregatedDataBytesMessage:
			if m.To != zznet.Parent {
				return l, d, false
			}
			d = childAggregatedDataBytesStruct{node, *b}
			datas++
		default:
			return l, d, false
		}
	}
	return l, d, lengths == 1 && datas == 1 && (down == 1 || down == 0 && p.IsLeaf())
}

func zzAggRoot(p *CollectiveAggregationProtocol, l []cadmbLengthStruct, d []childAggregatedDataBytesStruct) (zzGroups, bool) {
	zznet.Reset()
	p.LengthNodeChannel <- l
	p.ChildDataChannel <- d
	if p.Start() != nil || p.Dispatch() != nil || len(zznet.Sent) != 1 || zznet.Sent[0].To != zznet.Children {
		return nil, false
	}
	return (<-p.FeedbackChannel).GroupedData, zznet.Finished == 1
}

func zzSum(a, b libunlynx.CipherVector) (out libunlynx.CipherVector) {
	for i := range a {
		out = append(out, libunlynx.CipherText{K: zzS.Point().Add(a[i].K, b[i].K), C: zzS.Point().Add(a[i].C, b[i].C)})
	}
	return out
}

func zzRootLeaf(n, a *onet.TreeNodeInstance) bool {
	return n.IsRoot() && !n.IsLeaf() && !a.IsRoot() && a.IsLeaf()
}

// C08_AggSame: the same group at two servers is added up.
func C08_AggSame(n, a *onet.TreeNodeInstance, node *onet.TreeNode, key libunlynx.GroupingKey, x, y libunlynx.FilteredResponse) (pre bool, got, want libunlynx.CipherVector) {
	if !zzRootLeaf(n, a) || len(x.AggregatingAttributes) != len(y.AggregatingAttributes) {
		return false, nil, nil
	}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{key: y}), node)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{key: x}), []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	want = zzSum(x.AggregatingAttributes, y.AggregatingAttributes)
	if !ok || !ok2 || len(out) != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	return true, out[key].AggregatingAttributes, want
}

// C08_AggDifferent: different groups of two servers are all kept.
func C08_AggDifferent(n, a *onet.TreeNodeInstance, node *onet.TreeNode, k1, k2 libunlynx.GroupingKey, x, y libunlynx.FilteredResponse) (pre bool, got, want []libunlynx.CipherVector) {
	if !zzRootLeaf(n, a) || k1 == k2 {
		return false, nil, nil
	}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{k2: y}), node)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{k1: x}), []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	want = []libunlynx.CipherVector{x.AggregatingAttributes, x.GroupByEnc, y.AggregatingAttributes, y.GroupByEnc}
	if !ok || !ok2 || len(out) != 2 {
		return true, nil, want
	}
	return true, []libunlynx.CipherVector{out[k1].AggregatingAttributes, out[k1].GroupByEnc, out[k2].AggregatingAttributes, out[k2].GroupByEnc}, want
}

// C08_AggOrder: the messages of two children may arrive in any order.
func C08_AggOrder(n, a, b *onet.TreeNodeInstance, na, nb *onet.TreeNode, k, k1, k2 libunlynx.GroupingKey, x, y, z libunlynx.FilteredResponse) (pre bool, got, want []libunlynx.CipherVector) {
	if !zzRootLeaf(n, a) || b.IsRoot() || !b.IsLeaf() || k1 == k2 || k == k1 || k == k2 || na.ID == nb.ID {
		return false, nil, nil
	}
	la, da, ok := zzAggUp(zzAgg(a, zzGroups{k1: x}), na)
	lb, db, ok1 := zzAggUp(zzAgg(b, zzGroups{k2: y}), nb)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{k: z}), []cadmbLengthStruct{la, lb}, []childAggregatedDataBytesStruct{db, da})
	want = []libunlynx.CipherVector{x.AggregatingAttributes, y.AggregatingAttributes, z.AggregatingAttributes}
	if !ok || !ok1 || !ok2 || len(out) != 3 {
		return true, nil, want
	}
	return true, []libunlynx.CipherVector{out[k1].AggregatingAttributes, out[k2].AggregatingAttributes, out[k].AggregatingAttributes}, want
}

// C08_AggSimple: plain vectors of two servers are added up.
func C08_AggSimple(n, a *onet.TreeNodeInstance, node *onet.TreeNode, x0, y0 libunlynx.CipherText, x, y libunlynx.CipherVector) (pre bool, got, want libunlynx.CipherVector) {
	if !zzRootLeaf(n, a) || len(x) != len(y) {
		return false, nil, nil
	}
	x, y = append(libunlynx.CipherVector{x0}, x...), append(libunlynx.CipherVector{y0}, y...)
	sx, sy := []libunlynx.CipherText(x), []libunlynx.CipherText(y)
	p, q := zzAgg(n, nil), zzAgg(a, nil)
	p.SimpleData, q.SimpleData = &sx, &sy
	l, d, ok := zzAggUp(q, node)
	out, ok2 := zzAggRoot(p, []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	want = zzSum(x, y)
	if !ok || !ok2 || len(out) != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	return true, out[EMPTYKEY].AggregatingAttributes, want
}

// C08_AggPadded: a vector that is too short is filled up with encryptions of zero.
func C08_AggPadded(n, a *onet.TreeNodeInstance, node *onet.TreeNode, key libunlynx.GroupingKey, x, y libunlynx.CipherText, _ int) (pre, ok bool) {
	if !zzRootLeaf(n, a) {
		return false, false
	}
	short, long := libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{y, x}, AggregatingAttributes: libunlynx.CipherVector{x}}, libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{y}, AggregatingAttributes: libunlynx.CipherVector{x, y}}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{key: long}), node)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{key: short}), []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	if !ok || !ok2 || len(out[key].AggregatingAttributes) != 2 {
		return true, false
	}
	r := out[key].AggregatingAttributes
	return true, zzEqual(r[0], zzSum(libunlynx.CipherVector{x}, libunlynx.CipherVector{x})[0])
}

// C08_AggPaddedChild: so is a short vector of a child, and what it is added to stays as it was.
func C08_AggPaddedChild(n, a *onet.TreeNodeInstance, node *onet.TreeNode, key libunlynx.GroupingKey, x, y libunlynx.CipherText, _ int) (pre, ok bool) {
	if !zzRootLeaf(n, a) {
		return false, false
	}
	short, long := libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{y, x}, AggregatingAttributes: libunlynx.CipherVector{x}}, libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{y}, AggregatingAttributes: libunlynx.CipherVector{x, y}}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{key: short}), node)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{key: long}), []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	if !ok || !ok2 || len(out[key].AggregatingAttributes) != 2 {
		return true, false
	}
	r := out[key].AggregatingAttributes
	return true, zzEqual(r[0], zzSum(libunlynx.CipherVector{x}, libunlynx.CipherVector{x})[0])
}

// C08_AggProof: the proof a server publishes is about the data received and the data it sends on.
func C08_AggProof(n, a *onet.TreeNodeInstance, node *onet.TreeNode, key libunlynx.GroupingKey, x0, x1, y0, y1 libunlynx.CipherText) (pre bool, got, want []libunlynx.CipherText) {
	if !zzRootLeaf(n, a) {
		return false, nil, nil
	}
	key = "k" + key
	x, y := libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{x0, x1}}, libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{y0, y1}}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{key: y}), node)
	p := zzAgg(n, zzGroups{key: x})
	p.Proofs = true
	p.ProofFunc = func(data []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
		for _, v := range data {
			got = append(got, v...)
		}
		got = append(got, res...)
		return nil
	}
	out, ok2 := zzAggRoot(p, []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	want = []libunlynx.CipherText{x0, y0, x1, y1}
	want = append(want, out[key].AggregatingAttributes...)
	if !ok || !ok2 {
		return true, nil, want
	}
	return true, got, want
}

// C08_AggWide: every child's part counts, however many children there are.
func C08_AggWide(n, a, b, c *onet.TreeNodeInstance, na, nb, nc *onet.TreeNode, key libunlynx.GroupingKey, w, x, y, z libunlynx.FilteredResponse) (pre bool, got, want libunlynx.CipherVector) {
	k := len(w.AggregatingAttributes)
	if !zzRootLeaf(n, a) || b.IsRoot() || !b.IsLeaf() || c.IsRoot() || !c.IsLeaf() || na.ID == nb.ID || nb.ID == nc.ID || na.ID == nc.ID || len(x.AggregatingAttributes) != k || len(y.AggregatingAttributes) != k || len(z.AggregatingAttributes) != k {
		return false, nil, nil
	}
	la, da, ok := zzAggUp(zzAgg(a, zzGroups{key: x}), na)
	lb, db, ok1 := zzAggUp(zzAgg(b, zzGroups{key: y}), nb)
	lc, dc, ok2 := zzAggUp(zzAgg(c, zzGroups{key: z}), nc)
	out, ok3 := zzAggRoot(zzAgg(n, zzGroups{key: w}), []cadmbLengthStruct{la, lb, lc}, []childAggregatedDataBytesStruct{dc, da, db})
	want = zzSum(zzSum(w.AggregatingAttributes, x.AggregatingAttributes), zzSum(y.AggregatingAttributes, z.AggregatingAttributes))
	if !ok || !ok1 || !ok2 || !ok3 || len(out) != 1 {
		return true, nil, append(want, libunlynx.CipherText{})
	}
	return true, out[key].AggregatingAttributes, want
}

// C08_AggNothing: a server without data takes part, and its parent keeps its own.
func C08_AggNothing(n, a *onet.TreeNodeInstance, node *onet.TreeNode, key libunlynx.GroupingKey, x libunlynx.FilteredResponse) (pre bool, got, want libunlynx.CipherVector) {
	if !zzRootLeaf(n, a) {
		return false, nil, nil
	}
	l, d, ok := zzAggUp(zzAgg(a, zzGroups{}), node)
	out, ok2 := zzAggRoot(zzAgg(n, zzGroups{key: x}), []cadmbLengthStruct{l}, []childAggregatedDataBytesStruct{d})
	want = x.AggregatingAttributes
	if !ok || !ok2 || len(out) != 1 {
		return true, nil, append(libunlynx.CipherVector{{}}, want...)
	}
	return true, out[key].AggregatingAttributes, want
}

// C11_ChildGroups: several groups of a child come out as they went in.
func C11_ChildGroups(k1, k2 libunlynx.GroupingKey, g1, g2, x, y libunlynx.CipherText) (pre bool, got, want []libunlynx.CipherText) {
	if len(k1) != len(k2) {
		return false, nil, nil
	}
	in := ChildAggregatedDataMessage{ChildData: []libunlynx.FilteredResponseDet{{DetTagGroupBy: k1, Fr: zzGroup(g1, x)}, {DetTagGroupBy: k2, Fr: zzGroup(g2, y)}}}
	want = []libunlynx.CipherText{g1, x, g2, y}
	b, g, a, d, err := in.ToBytes()
	out := ChildAggregatedDataMessage{}
	if err != nil || out.FromBytes(b, g, a, d) != nil {
		return true, nil, want
	}
	for i, v := range out.ChildData {
		if i == 0 && v.DetTagGroupBy != k1 || i == 1 && v.DetTagGroupBy != k2 {
			return true, nil, want
		}
		got = append(append(got, v.Fr.GroupByEnc...), v.Fr.AggregatingAttributes...)
	}
	return true, got, want
}

func zzGroup(g, v libunlynx.CipherText) libunlynx.FilteredResponse {
	return libunlynx.FilteredResponse{GroupByEnc: libunlynx.CipherVector{g}, AggregatingAttributes: libunlynx.CipherVector{v}}
}
