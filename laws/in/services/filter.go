package servicesunlynx

import (
	"github.com/Knetic/govaluate"
	"github.com/ldsec/unlynx/lib"
)

// The predicates of the laws: two pairs of tags are compared.

func zzmodel_NewEvaluableExpression(pred string) (*govaluate.EvaluableExpression, error) {
	return &govaluate.EvaluableExpression{}, nil
}

func zzmodel_EvaluableExpression_Evaluate(e govaluate.EvaluableExpression, ps map[string]interface{}) (interface{}, error) {
	if len(ps) == 2 {
		return ps["v0"].(string) == ps["v1"].(string), nil
	}
	if len(ps) == 4 {
		return ps["v0"].(string) == ps["v1"].(string) && ps["v2"].(string) == ps["v3"].(string), nil
	}
	return ps["v0"].(string) == ps["v1"].(string) && ps["v2"].(string) == ps["v3"].(string) && ps["v4"].(string) == ps["v5"].(string) &&
		ps["v6"].(string) == ps["v7"].(string) && ps["v8"].(string) == ps["v9"].(string) && ps["v10"].(string) == ps["v11"].(string), nil
}

// C13_FilterNone: without a predicate every response is kept.
func C13_FilterNone(rs []libunlynx.ProcessResponseDet) (got, want []libunlynx.FilteredResponseDet) {
	for _, r := range rs {
		want = append(want, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
	}
	return FilterNone(rs), want
}

// C13_FilterOne: a response is kept if and only if its own tag satisfies the predicate.
func C13_FilterOne(pred, name string, tag libunlynx.GroupingKey, rs []libunlynx.ProcessResponseDet, tags []libunlynx.GroupingKey) (pre bool, got, want []libunlynx.FilteredResponseDet) {
	if len(rs) != len(tags) || len(rs) == 0 {
		return false, nil, nil
	}
	var in []libunlynx.ProcessResponseDet
	for i, r := range rs {
		in = append(in, libunlynx.ProcessResponseDet{PR: r.PR, DetTagGroupBy: r.DetTagGroupBy, DetTagWhere: []libunlynx.GroupingKey{tags[i]}})
		if tags[i] == tag {
			want = append(want, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
		}
	}
	return true, FilterResponses(pred, []libunlynx.WhereQueryAttributeTagged{{Name: name, Value: tag}}, in), want
}

// C13_FilterTwo: with several attributes, each is compared with the tag of the same position.
func C13_FilterTwo(pred string, ws []libunlynx.WhereQueryAttributeTagged, r libunlynx.ProcessResponseDet) (pre bool, got, want []libunlynx.FilteredResponseDet) {
	if len(ws) != 2 || len(r.DetTagWhere) != 2 {
		return false, nil, nil
	}
	if r.DetTagWhere[0] == ws[0].Value && r.DetTagWhere[1] == ws[1].Value {
		want = append(want, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
	}
	return true, FilterResponses(pred, ws, []libunlynx.ProcessResponseDet{r}), want
}

// C13_FilterMany: so it is with more attributes than there are digits.
func C13_FilterMany(pred string, v0, v1, v2, v3, v4, v5, t5 libunlynx.GroupingKey, r libunlynx.ProcessResponseDet) (got, want []libunlynx.FilteredResponseDet) {
	r.DetTagWhere = []libunlynx.GroupingKey{v0, v1, v2, v3, v4, t5}
	ws := []libunlynx.WhereQueryAttributeTagged{{Name: "a", Value: v0}, {Name: "b", Value: v1}, {Name: "c", Value: v2}, {Name: "d", Value: v3}, {Name: "e", Value: v4}, {Name: "f", Value: v5}}
	if t5 == v5 {
		want = append(want, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
	}
	return FilterResponses(pred, ws, []libunlynx.ProcessResponseDet{r}), want
}

// C13_CountDPs: the data providers of all the servers are counted.
func C13_CountDPs(m map[string]int64, k string, n int64) (pre bool, got, want int64) {
	if _, ok := m[k]; ok {
		return false, 0, 0
	}
	before := CountDPs(m)
	m[k] = n
	return true, CountDPs(m), before + n
}

// C13_FilterEach: what is kept of a response is its own, whichever others are dropped or kept.
func C13_FilterEach(pred, name string, tag, other libunlynx.GroupingKey, a, b, c libunlynx.ProcessResponseDet) (pre bool, got, want []libunlynx.FilteredResponseDet) {
	if tag == other {
		return false, nil, nil
	}
	a.DetTagWhere, b.DetTagWhere, c.DetTagWhere = []libunlynx.GroupingKey{other}, []libunlynx.GroupingKey{tag}, []libunlynx.GroupingKey{tag}
	for _, r := range []libunlynx.ProcessResponseDet{b, c} {
		want = append(want, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
	}
	return true, FilterResponses(pred, []libunlynx.WhereQueryAttributeTagged{{Name: name, Value: tag}}, []libunlynx.ProcessResponseDet{a, b, c}), want
}
