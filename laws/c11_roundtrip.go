package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
)

func C11_CipherText(c libunlynx.CipherText) bool {
	b, err := c.ToBytes()
	d := libunlynx.CipherText{}
	err2 := d.FromBytes(b)
	return err == nil && err2 == nil && d.K.Equal(c.K) && d.C.Equal(c.C) && len(b) == libunlynx.CipherTextByteSize()
}

func C11_CipherTextBase64(c libunlynx.CipherText) bool {
	s, err := c.Serialize()
	d, err2 := libunlynx.NewCipherTextFromBase64(s)
	return err == nil && err2 == nil && d.K.Equal(c.K) && d.C.Equal(c.C)
}

func C11_CipherTextDeserialize(c libunlynx.CipherText) bool {
	s, err := c.Serialize()
	d := libunlynx.NewCipherText()
	err2 := d.Deserialize(s)
	return err == nil && err2 == nil && d.K.Equal(c.K) && d.C.Equal(c.C)
}

func C11_CipherVector(cv libunlynx.CipherVector) (got, want libunlynx.CipherVector) {
	b, n, _ := cv.ToBytes()
	d := libunlynx.CipherVector{}
	_ = d.FromBytes(b, n)
	return d, cv
}

func C11_CipherVectorErr(cv libunlynx.CipherVector) bool {
	b, n, err := cv.ToBytes()
	d := libunlynx.CipherVector{}
	err2 := d.FromBytes(b, n)
	return err == nil && err2 == nil && n == len(cv) && len(b) == n*libunlynx.CipherTextByteSize()
}

func C11_ArrayCipherVector(in []libunlynx.CipherVector) (got, want []libunlynx.CipherVector) {
	b, l, _ := libunlynx.ArrayCipherVectorToBytes(in)
	got, _ = libunlynx.FromBytesToArrayCipherVector(b, l)
	return got, in
}

func C11_Points(ps []kyber.Point) (got, want []kyber.Point) {
	b, _ := libunlynx.AbstractPointsToBytes(ps)
	got, _ = libunlynx.FromBytesToAbstractPoints(b)
	return got, ps
}

func C11_Point64(p kyber.Point) bool {
	s, err := libunlynx.SerializePoint(p)
	q, err2 := libunlynx.DeserializePoint(s)
	return err == nil && err2 == nil && q.Equal(p)
}

func C11_Scalar64(x kyber.Scalar) bool {
	s, err := libunlynx.SerializeScalar(x)
	q, err2 := libunlynx.DeserializeScalar(s)
	return err == nil && err2 == nil && q.Equal(x)
}

func C11_FilteredResponse(g, a libunlynx.CipherVector) (got, want libunlynx.FilteredResponse) {
	r := libunlynx.FilteredResponse{GroupByEnc: g, AggregatingAttributes: a}
	b, n, m, _ := r.ToBytes()
	_ = got.FromBytes(b, m, n)
	return got, r
}

func C11_FilteredResponseDet(g, a libunlynx.CipherVector, key libunlynx.GroupingKey) (got, want libunlynx.FilteredResponseDet) {
	r := libunlynx.FilteredResponseDet{DetTagGroupBy: key, Fr: libunlynx.FilteredResponse{GroupByEnc: g, AggregatingAttributes: a}}
	b, x, y, z, _ := r.ToBytes()
	_ = got.FromBytes(b, x, y, z)
	return got, r
}

func C11_ProcessResponse(w, g, a libunlynx.CipherVector) (got, want libunlynx.ProcessResponse) {
	r := libunlynx.ProcessResponse{WhereEnc: w, GroupByEnc: g, AggregatingAttributes: a}
	b, x, y, z, _ := r.ToBytes()
	_ = got.FromBytes(b, x, y, z)
	return got, r
}

func C11_ProcessResponseDet(w, g, a libunlynx.CipherVector, key libunlynx.GroupingKey, keys []libunlynx.GroupingKey) (pre bool, got, want libunlynx.ProcessResponseDet) {
	r := libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{WhereEnc: w, GroupByEnc: g, AggregatingAttributes: a}, DetTagGroupBy: key, DetTagWhere: keys}
	b, x, y, z, t, u, _ := r.ToBytes()
	_ = got.FromBytes(b, x, y, z, t, u)
	return len(keys) > 0, got, r
}

func C11_Ints(xs []int) (got, want []int) {
	return libunlynxtools.UnsafeCastBytesToInts(libunlynxtools.UnsafeCastIntsToBytes(xs)), xs
}

func C11_Int64String(xs []int64) (pre bool, got, want []int64) {
	return len(xs) > 0, libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(xs)), xs
}

func C11_DataMap(xs []int64, first string, start int) (pre bool, got, want []int64) {
	return start >= 0, libunlynxtools.ConvertMapToData(libunlynxtools.ConvertDataToMap(xs, first, start), first, start), xs
}

func C11_Precomputed(in []libunlynxshuffle.CipherVectorScalar) (pre bool, got, want []libunlynxshuffle.CipherVectorScalar) {
	pre = true
	b, _ := libunlynxshuffle.EncodeCipherVectorScalar(in)
	got, _ = libunlynxshuffle.DecodeCipherVectorScalar(b)
	return pre, got, in
}

func C11_KSProof(p libunlynxkeyswitch.PublishedKSProof) (got, want libunlynxkeyswitch.PublishedKSProof) {
	b, _ := p.ToBytes()
	_ = got.FromBytes(b)
	return got, p
}

func C11_KSListProof(p libunlynxkeyswitch.PublishedKSListProof) (got, want libunlynxkeyswitch.PublishedKSListProof) {
	b, _ := p.ToBytes()
	_ = got.FromBytes(b)
	return got, p
}

func C11_AggregationProof(p libunlynxaggr.PublishedAggregationProof) (got, want libunlynxaggr.PublishedAggregationProof) {
	b, _ := p.ToBytes()
	_ = got.FromBytes(b)
	return got, p
}

func C11_AggregationListProof(p libunlynxaggr.PublishedAggregationListProof) (got, want libunlynxaggr.PublishedAggregationListProof) {
	b, _ := p.ToBytes()
	_ = got.FromBytes(b)
	return got, p
}

func C11_ShuffleProof(p libunlynxshuffle.PublishedShufflingProof) (got, want libunlynxshuffle.PublishedShufflingProof) {
	b, _ := p.ToBytes()
	_ = got.FromBytes(b)
	return got, p
}

func C11_TaggingMessage(m protocolsunlynx.DeterministicTaggingMessage) (got, want protocolsunlynx.DeterministicTaggingMessage) {
	b, _ := m.ToBytes()
	_ = got.FromBytes(b)
	return got, m
}

func C11_ShufflingMessage(m protocolsunlynx.ShufflingMessage) (got, want protocolsunlynx.ShufflingMessage) {
	b, l, _ := m.ToBytes()
	_ = got.FromBytes(b, l)
	return got, m
}

func C11_ShufflingPlusDDTMessage(m protocolsunlynx.ShufflingPlusDDTMessage) (got, want protocolsunlynx.ShufflingPlusDDTMessage) {
	b, l, _ := m.ToBytes()
	k, _ := libunlynx.AbstractPointsToBytes([]kyber.Point{m.ShuffKey})
	_ = got.FromBytes(b, k, l)
	return got, m
}

func C11_AggregationMessage(m protocolsunlynx.ChildAggregatedDataMessage, g, a, d int) (pre bool, got, want protocolsunlynx.ChildAggregatedDataMessage) {
	if len(m.ChildData) == 0 || g+a+d == 0 {
		return false, got, want
	}
	pre = true
	for i := range m.ChildData {
		pre = pre && len(m.ChildData[i].Fr.GroupByEnc) == g && len(m.ChildData[i].Fr.AggregatingAttributes) == a && len(m.ChildData[i].DetTagGroupBy) == d
	}
	b, x, y, z, _ := m.ToBytes()
	_ = got.FromBytes(b, x, y, z)
	return pre, got, m
}

func C11_MapBytes(m map[string]libunlynx.CipherText) (pre bool, got, want map[string]libunlynx.CipherText) {
	if len(m) == 0 {
		return false, nil, nil
	}
	b := make(map[string][]byte)
	for k, c := range m {
		x, _ := c.ToBytes()
		b[k] = x
	}
	got, _ = libunlynx.MapBytesToMapCipherText(b)
	return true, got, m
}

func C11_MapTwo(k1, k2 string, c1, c2 libunlynx.CipherText) (pre, ok bool) {
	if k1 == k2 {
		return false, false
	}
	b := make(map[string][]byte)
	b[k1], _ = c1.ToBytes()
	b[k2], _ = c2.ToBytes()
	got, err := libunlynx.MapBytesToMapCipherText(b)
	return true, err == nil && len(got) == 2 && got[k1].K.Equal(c1.K) && got[k1].C.Equal(c1.C) && got[k2].K.Equal(c2.K) && got[k2].C.Equal(c2.C)
}
