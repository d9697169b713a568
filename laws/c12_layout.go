package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
)

func C12_RowsRoundTrip(pr []libunlynx.ProcessResponse) (pre bool, got, want []libunlynx.ProcessResponse) {
	cv, l := protocolsunlynx.ProcessResponseToMatrixCipherText(pr)
	return len(pr) != 1, protocolsunlynx.MatrixCipherTextToProcessResponse(cv, l), pr
}

func C12_RowsAppendedDummy(p libunlynx.ProcessResponse) (ok bool) {
	cv, l := protocolsunlynx.ProcessResponseToMatrixCipherText([]libunlynx.ProcessResponse{p})
	out := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, l)
	if len(out) != 2 {
		return false
	}
	ok = len(out[1].AggregatingAttributes) == len(p.AggregatingAttributes)
	for _, c := range out[1].AggregatingAttributes {
		ok = ok && c.K.Equal(null()) && c.C.Equal(null())
	}
	return ok
}

func C12_RowsSingle(p libunlynx.ProcessResponse) (got, want libunlynx.ProcessResponse) {
	cv, l := protocolsunlynx.ProcessResponseToMatrixCipherText([]libunlynx.ProcessResponse{p})
	out := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, l)
	return out[0], p
}

func C12_RowsDummyGroup(p libunlynx.ProcessResponse) (got, want libunlynx.ProcessResponse) {
	cv, l := protocolsunlynx.ProcessResponseToMatrixCipherText([]libunlynx.ProcessResponse{p})
	out := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, l)
	return libunlynx.ProcessResponse{WhereEnc: out[1].WhereEnc, GroupByEnc: out[1].GroupByEnc}, libunlynx.ProcessResponse{WhereEnc: p.WhereEnc, GroupByEnc: p.GroupByEnc}
}

func C12_FilteredRoundTrip(fr []libunlynx.FilteredResponse) (got, want []libunlynx.FilteredResponse) {
	cv, l := protocolsunlynx.FilteredResponseToCipherVector(fr)
	return protocolsunlynx.CipherVectorToFilteredResponse(cv, l), fr
}

func C12_AdaptArray(in []libunlynx.CipherText) (got, want []libunlynx.CipherVector) {
	for _, c := range in {
		want = append(want, libunlynx.CipherVector{c})
	}
	return protocolsunlynx.AdaptCipherTextArray(in), want
}

func C12_TagOrder(w, g []libunlynx.DeterministCipherVector, pr []libunlynx.ProcessResponse) (pre bool, got, want []libunlynx.ProcessResponseDet) {
	if len(w) != len(pr) || len(g) != len(pr) {
		return false, nil, nil
	}
	pre = true
	all := make(libunlynx.DeterministCipherVector, 0)
	for i := range pr {
		pre = pre && len(w[i]) == len(pr[i].WhereEnc) && len(g[i]) == len(pr[i].GroupByEnc)
		all = append(all, w[i]...)
		all = append(all, g[i]...)
		tags := make([]libunlynx.GroupingKey, 0)
		for _, x := range w[i] {
			tags = append(tags, libunlynx.GroupingKey(x.String()))
		}
		want = append(want, libunlynx.ProcessResponseDet{PR: pr[i], DetTagGroupBy: g[i].Key(), DetTagWhere: tags})
	}
	if !pre {
		return false, nil, nil
	}
	return true, protocolsunlynx.DeterCipherVectorToProcessResponseDet(all, pr), want
}

func C12_TagInput(pr []libunlynx.ProcessResponse) (got, want libunlynx.CipherVector) {
	for _, p := range pr {
		want = append(want, p.WhereEnc...)
		want = append(want, p.GroupByEnc...)
	}
	return protocolsunlynx.ProcessResponseToCipherVector(pr), want
}

func C12_SimpleData(cv []libunlynx.CipherText) (got, want []libunlynx.CipherText) {
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{protocolsunlynx.EMPTYKEY: {AggregatingAttributes: cv}}
	got, _ = protocolsunlynx.RetrieveSimpleDataFromMap(m)
	return got, cv
}

// data providers' responses

func decMap(k kyber.Scalar, enc map[string]libunlynx.CipherText, clear map[string]int64) bool {
	ok := true
	for name, v := range clear {
		c, has := enc[name]
		ok = ok && has && open(k, c).Equal(point(v))
	}
	return ok
}

func C12_DpResponse(k kyber.Scalar, d libunlynx.DpClearResponse) (pre, ok bool) {
	if _, has := d.AggregatingAttributesEnc["count"]; has {
		return false, true
	}
	s, err := libunlynx.EncryptDpClearResponse(d, pub(k), false)
	r := libunlynx.DpResponse{}
	err2 := r.FromDpResponseToSend(s)
	return true, err == nil && err2 == nil && decMap(k, r.GroupByEnc, d.GroupByEnc) && decMap(k, r.WhereEnc, d.WhereEnc) && decMap(k, r.AggregatingAttributesEnc, d.AggregatingAttributesEnc) &&
		len(r.GroupByEnc) == len(d.GroupByEnc) && len(r.WhereEnc) == len(d.WhereEnc) && len(r.AggregatingAttributesEnc) == len(d.AggregatingAttributesEnc)
}

func C12_DpResponseClear(k kyber.Scalar, d libunlynx.DpClearResponse, count bool) (got, want libunlynx.DpClearResponse) {
	s, _ := libunlynx.EncryptDpClearResponse(d, pub(k), count)
	r := libunlynx.DpResponse{}
	_ = r.FromDpResponseToSend(s)
	return libunlynx.DpClearResponse{GroupByClear: r.GroupByClear, WhereClear: r.WhereClear, AggregatingAttributesClear: r.AggregatingAttributesClear},
		libunlynx.DpClearResponse{GroupByClear: d.GroupByClear, WhereClear: d.WhereClear, AggregatingAttributesClear: d.AggregatingAttributesClear}
}

func C12_DpResponseCount(k kyber.Scalar, d libunlynx.DpClearResponse) bool {
	s, _ := libunlynx.EncryptDpClearResponse(d, pub(k), true)
	r := libunlynx.DpResponse{}
	_ = r.FromDpResponseToSend(s)
	c, has := r.AggregatingAttributesEnc["count"]
	return has && open(k, c).Equal(point(1))
}
