package zzlaws

import (
	"strconv"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/lib/tools"
	"go.dedis.ch/kyber/v3"
)

func fresh() libunlynx.CipherText { return libunlynx.CipherText{} }

func C19_FilteredAdd(a, b libunlynx.FilteredResponse) (pre bool, got, want libunlynx.FilteredResponse) {
	n := len(a.AggregatingAttributes)
	if n != len(b.AggregatingAttributes) {
		return false, got, want
	}
	r := libunlynx.NewFilteredResponse(len(a.GroupByEnc), n)
	r.Add(a, b)
	want.GroupByEnc = a.GroupByEnc
	for i := 0; i < n; i++ {
		want.AggregatingAttributes = append(want.AggregatingAttributes, libunlynx.CipherText{
			K: add(a.AggregatingAttributes[i].K, b.AggregatingAttributes[i].K),
			C: add(a.AggregatingAttributes[i].C, b.AggregatingAttributes[i].C)})
	}
	return true, r, want
}

func C19_AddInMapNew(key libunlynx.GroupingKey, a libunlynx.FilteredResponse) (got, want map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	got = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	libunlynx.AddInMap(got, key, a)
	return got, map[libunlynx.GroupingKey]libunlynx.FilteredResponse{key: a}
}

func C19_AddInMapOther(key, other libunlynx.GroupingKey, a, b libunlynx.FilteredResponse) (pre bool, got, want libunlynx.FilteredResponse) {
	m := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	libunlynx.AddInMap(m, key, a)
	libunlynx.AddInMap(m, other, b)
	return key != other, m[key], a
}

func C19_AddInMapSame(key libunlynx.GroupingKey, a, b libunlynx.FilteredResponse) (pre bool, got, want libunlynx.CipherVector) {
	m := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	n := len(a.AggregatingAttributes)
	if n != len(b.AggregatingAttributes) {
		return false, nil, nil
	}
	libunlynx.AddInMap(m, key, a)
	libunlynx.AddInMap(m, key, b)
	for i := 0; i < n; i++ {
		want = append(want, libunlynx.CipherText{
			K: add(a.AggregatingAttributes[i].K, b.AggregatingAttributes[i].K),
			C: add(a.AggregatingAttributes[i].C, b.AggregatingAttributes[i].C)})
	}
	return len(m) == 1, m[key].AggregatingAttributes, want
}

// pick is what the store has to extract from a response for the given attributes.
func pick(names []string, clear map[string]int64, enc map[string]libunlynx.CipherText) (out libunlynx.CipherVector) {
	for _, n := range names {
		if c, ok := enc[n]; ok {
			out = append(out, c)
		} else {
			out = append(out, libunlynx.CipherText{K: null(), C: point(clear[n])})
		}
	}
	return out
}

func C19_InsertOne(r libunlynx.DpResponse, proofs bool, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) (pre bool, got, want []libunlynx.ProcessResponse) {
	if r.WhereEnc == nil && r.GroupByEnc == nil {
		return false, nil, nil
	}
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, proofs, groupBy, sum, where)
	got = s.PullDpResponses()
	names := make([]string, 0)
	for _, w := range where {
		names = append(names, w.Name)
	}
	want = append(want, libunlynx.ProcessResponse{
		GroupByEnc:            pick(groupBy, r.GroupByClear, r.GroupByEnc),
		WhereEnc:              pick(names, r.WhereClear, r.WhereEnc),
		AggregatingAttributes: pick(sum, r.AggregatingAttributesClear, r.AggregatingAttributesEnc)})
	return true, got, want
}

func C19_InsertTwo(r, q libunlynx.DpResponse, groupBy, sum []string) (pre bool, got, want []libunlynx.ProcessResponse) {
	if r.WhereEnc == nil && r.GroupByEnc == nil || q.WhereEnc == nil && q.GroupByEnc == nil {
		return false, nil, nil
	}
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, false, groupBy, sum, nil)
	s.InsertDpResponse(q, false, groupBy, sum, nil)
	got = s.PullDpResponses()
	for _, x := range []libunlynx.DpResponse{r, q} {
		want = append(want, libunlynx.ProcessResponse{
			GroupByEnc:            pick(groupBy, x.GroupByClear, x.GroupByEnc),
			WhereEnc:              libunlynx.CipherVector{},
			AggregatingAttributes: pick(sum, x.AggregatingAttributesClear, x.AggregatingAttributesEnc)})
	}
	return true, got, want
}

func C19_InsertOnce(r libunlynx.DpResponse, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) (pre, ok bool) {
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, false, groupBy, sum, where)
	a := s.PullDpResponses()
	b := s.PullDpResponses()
	return true, len(a) == 1 && len(b) == 0 && !s.HasNextDpResponse()
}

func C19_InsertClearOne(r libunlynx.DpResponse, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) (pre bool, got, want []libunlynx.ProcessResponse) {
	if r.WhereEnc != nil || r.GroupByEnc != nil {
		return false, nil, nil
	}
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, false, groupBy, sum, where)
	got = s.PullDpResponses()
	names := make([]string, 0)
	for _, w := range where {
		names = append(names, w.Name)
	}
	want = append(want, libunlynx.ProcessResponse{
		GroupByEnc:            pick(groupBy, r.GroupByClear, nil),
		WhereEnc:              pick(names, r.WhereClear, nil),
		AggregatingAttributes: pick(sum, r.AggregatingAttributesClear, r.AggregatingAttributesEnc)})
	return true, got, want
}

// clearPair builds two responses without encrypted groups, with the given values of one grouping attribute.
func clearPair(x, y int64, a, b libunlynx.CipherText) (r, q libunlynx.DpResponse) {
	r = libunlynx.DpResponse{GroupByClear: map[string]int64{"g": x}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s": a}}
	q = libunlynx.DpResponse{GroupByClear: map[string]int64{"g": y}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s": b}}
	return r, q
}

func C19_InsertClearSame(x int64, a, b libunlynx.CipherText, proofs bool) (pre, ok bool) {
	s := libunlynxstore.NewStore()
	r, q := clearPair(x, x, a, b)
	s.InsertDpResponse(r, proofs, []string{"g"}, []string{"s"}, nil)
	s.InsertDpResponse(q, proofs, []string{"g"}, []string{"s"}, nil)
	got := s.PullDpResponses()
	if len(got) != 1 || len(got[0].AggregatingAttributes) != 1 || len(got[0].GroupByEnc) != 1 {
		return true, false
	}
	c := got[0].AggregatingAttributes[0]
	return true, c.K.Equal(add(a.K, b.K)) && c.C.Equal(add(a.C, b.C)) && got[0].GroupByEnc[0].C.Equal(point(x))
}

func C19_InsertClearDifferent(x, y int64, a, b libunlynx.CipherText, proofs bool) (pre, ok bool) {
	s := libunlynxstore.NewStore()
	r, q := clearPair(x, y, a, b)
	s.InsertDpResponse(r, proofs, []string{"g"}, []string{"s"}, nil)
	s.InsertDpResponse(q, proofs, []string{"g"}, []string{"s"}, nil)
	got := s.PullDpResponses()
	return x != y, len(got) == 2
}

func C19_Shuffled(a, b []libunlynx.ProcessResponse) (got, want []libunlynx.ProcessResponse) {
	s := libunlynxstore.NewStore()
	s.PushShuffledProcessResponses(a)
	s.PushShuffledProcessResponses(b)
	want = append(want, a...)
	want = append(want, b...)
	return s.PullShuffledProcessResponses(), want
}

func C19_ShuffledOnce(a []libunlynx.ProcessResponse) bool {
	s := libunlynxstore.NewStore()
	s.PushShuffledProcessResponses(a)
	s.PullShuffledProcessResponses()
	return len(s.PullShuffledProcessResponses()) == 0
}

func C19_Deliver(a []libunlynx.FilteredResponse) (got, want []libunlynx.FilteredResponse) {
	s := libunlynxstore.NewStore()
	s.PushQuerierKeyEncryptedResponses(a)
	return s.PullDeliverableResults(false, fresh()), a
}

func C19_DeliverOnce(a []libunlynx.FilteredResponse) bool {
	s := libunlynxstore.NewStore()
	s.PushQuerierKeyEncryptedResponses(a)
	s.PullDeliverableResults(false, fresh())
	return len(s.PullDeliverableResults(false, fresh())) == 0
}

func C19_LocalGroups(in []libunlynx.FilteredResponseDet, key libunlynx.GroupingKey, n int, i int) (pre bool, got, want kyber.Point) {
	if n < 1 || i < 0 || i >= n || len(in) == 0 {
		return false, null(), null()
	}
	for _, r := range in {
		if len(r.Fr.AggregatingAttributes) != n {
			return false, null(), null()
		}
	}
	k := in[0].DetTagGroupBy
	s := libunlynxstore.NewStore()
	s.PushDeterministicFilteredResponses(in, "", false)
	m := s.PullLocallyAggregatedResponses()
	want = null()
	for _, r := range in {
		if r.DetTagGroupBy == k {
			want = add(want, r.Fr.AggregatingAttributes[i].C)
		}
	}
	return true, m[k].AggregatingAttributes[i].C, want
}

func C19_LocalOnce(in []libunlynx.FilteredResponseDet) bool {
	s := libunlynxstore.NewStore()
	s.PushDeterministicFilteredResponses(in, "", false)
	a := s.HasNextAggregatedResponse()
	s.PullLocallyAggregatedResponses()
	return a == (len(in) > 0) && !s.HasNextAggregatedResponse() && len(s.PullLocallyAggregatedResponses()) == 0
}

func C19_Collective(key libunlynx.GroupingKey, a, b libunlynx.FilteredResponse) (pre, ok bool) {
	n := len(a.AggregatingAttributes)
	if n == 0 || n != len(b.AggregatingAttributes) {
		return false, true
	}
	s := libunlynxstore.NewStore()
	s.PushCothorityAggregatedFilteredResponses(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{key: a})
	s.PushCothorityAggregatedFilteredResponses(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{key: b})
	out := s.PullCothorityAggregatedFilteredResponses(false, fresh())
	if len(out) != 1 {
		return true, false
	}
	ok = len(out[0].AggregatingAttributes) == n
	for i := 0; i < n && ok; i++ {
		c := out[0].AggregatingAttributes[i]
		ok = ok && c.K.Equal(add(a.AggregatingAttributes[i].K, b.AggregatingAttributes[i].K)) && c.C.Equal(add(a.AggregatingAttributes[i].C, b.AggregatingAttributes[i].C))
	}
	return true, ok
}

func C19_CollectiveAll(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) bool {
	s := libunlynxstore.NewStore()
	s.PushCothorityAggregatedFilteredResponses(m)
	has := s.HasNextAggregatedFilteredResponses()
	out := s.PullCothorityAggregatedFilteredResponses(false, fresh())
	return has == (len(m) > 0) && len(out) == len(m) && !s.HasNextAggregatedFilteredResponses() && len(s.PullCothorityAggregatedFilteredResponses(false, fresh())) == 0
}

func C19_CollectiveNoise(key libunlynx.GroupingKey, a libunlynx.FilteredResponse, noise libunlynx.CipherText) (got, want libunlynx.CipherVector) {
	for _, c := range a.AggregatingAttributes {
		want = append(want, libunlynx.CipherText{K: add(c.K, noise.K), C: add(c.C, noise.C)})
	}
	s := libunlynxstore.NewStore()
	s.PushCothorityAggregatedFilteredResponses(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{key: a})
	out := s.PullCothorityAggregatedFilteredResponses(true, noise)
	return out[0].AggregatingAttributes, want
}

func C19_DeliverNoise(a libunlynx.FilteredResponse, noise libunlynx.CipherText) (got, want libunlynx.CipherVector) {
	for _, c := range a.AggregatingAttributes {
		want = append(want, libunlynx.CipherText{K: add(c.K, noise.K), C: add(c.C, noise.C)})
	}
	s := libunlynxstore.NewStore()
	s.PushQuerierKeyEncryptedResponses([]libunlynx.FilteredResponse{a})
	out := s.PullDeliverableResults(true, noise)
	return out[0].AggregatingAttributes, want
}

// responses in clear

func clearResponse(g int64, values []int64) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, AggregatingAttributesClear: libunlynxtools.ConvertDataToMap(values, "s", 0)}
}

func C19_AddInClearSame(g, d int64, values []int64) (pre bool, got, want []int64) {
	twice := make([]int64, len(values))
	for j := range values {
		twice[j] = 2*values[j] + d
		want = append(want, 3*values[j]+d)
	}
	out := libunlynxstore.AddInClear([]libunlynx.DpClearResponse{clearResponse(g, values), clearResponse(g, twice)})
	if len(out) != 1 || len(out[0].GroupByClear) != 1 || out[0].GroupByClear["g0"] != g || len(out[0].AggregatingAttributesClear) != len(values) {
		return true, nil, append(want, 0)
	}
	for j := range values {
		got = append(got, out[0].AggregatingAttributesClear["s"+strconv.Itoa(j)])
	}
	return len(values) > 0, got, want
}

func C19_AddInClearDifferent(g, h, a, b int64, enc bool) (pre, ok bool) {
	x := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, AggregatingAttributesClear: map[string]int64{"s0": a}, AggregatingAttributesEnc: map[string]int64{"s1": b}}
	y := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": h}, AggregatingAttributesClear: map[string]int64{"s0": b}, AggregatingAttributesEnc: map[string]int64{"s1": a}}
	if enc {
		x.GroupByClear, x.GroupByEnc = nil, x.GroupByClear
		y.GroupByClear, y.GroupByEnc = nil, y.GroupByClear
	}
	out := libunlynxstore.AddInClear([]libunlynx.DpClearResponse{x, y})
	if len(out) != 2 {
		return g != h, false
	}
	s, t := 0, 0
	for _, r := range out {
		k := r.GroupByClear
		if enc {
			k = r.GroupByEnc
		}
		if len(k) == 1 && k["g0"] == g && r.AggregatingAttributesClear["s0"] == a && r.AggregatingAttributesEnc["s1"] == b {
			s++
		}
		if len(k) == 1 && k["g0"] == h && r.AggregatingAttributesClear["s0"] == b && r.AggregatingAttributesEnc["s1"] == a {
			t++
		}
	}
	return g != h, s == 1 && t == 1
}

func C19_AddInClearFilter(g, a, b int64, where int64, enc bool) (pre, ok bool) {
	w := where % 2
	if w < 0 {
		w = 1
	}
	x := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, WhereClear: map[string]int64{"w0": 1}, AggregatingAttributesClear: map[string]int64{"s0": a}}
	y := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, WhereClear: map[string]int64{"w0": w}, AggregatingAttributesClear: map[string]int64{"s0": b}}
	if enc {
		x.WhereClear, x.WhereEnc = nil, x.WhereClear
		y.WhereClear, y.WhereEnc = nil, y.WhereClear
	}
	out := libunlynxstore.AddInClear([]libunlynx.DpClearResponse{x, y})
	if len(out) != 1 {
		return true, false
	}
	return true, out[0].GroupByClear["g0"] == g && out[0].AggregatingAttributesClear["s0"] == a+w*b && len(out[0].WhereClear)+len(out[0].WhereEnc) == 1
}

// C19_AddInClearKinds: attributes of every kind come out as what they were.
func C19_AddInClearKinds(g0, g1, g2, w0, a, b, c int64) (got, want []int64) {
	out := libunlynxstore.AddInClear([]libunlynx.DpClearResponse{{
		GroupByClear: map[string]int64{"g0": g0}, GroupByEnc: map[string]int64{"g1": g1, "g2": g2},
		WhereClear: map[string]int64{"w0": w0}, WhereEnc: map[string]int64{"w1": 1, "w2": 1, "w3": 1},
		AggregatingAttributesClear: map[string]int64{"s0": a, "s1": b}, AggregatingAttributesEnc: map[string]int64{"s2": c},
	}})
	want = []int64{g0, g1, g2, w0, 1, 1, 1, a, b, c, 1, 2, 1, 3, 2, 1}
	if len(out) != 1 {
		return nil, want
	}
	r := out[0]
	got = []int64{r.GroupByClear["g0"], r.GroupByEnc["g1"], r.GroupByEnc["g2"], r.WhereClear["w0"], r.WhereEnc["w1"], r.WhereEnc["w2"], r.WhereEnc["w3"],
		r.AggregatingAttributesClear["s0"], r.AggregatingAttributesClear["s1"], r.AggregatingAttributesEnc["s2"]}
	return append(got, int64(len(r.GroupByClear)), int64(len(r.GroupByEnc)), int64(len(r.WhereClear)), int64(len(r.WhereEnc)), int64(len(r.AggregatingAttributesClear)), int64(len(r.AggregatingAttributesEnc))), want
}

// C19_AddInClearNone: nothing added up is nothing.
func C19_AddInClearNone() bool { return len(libunlynxstore.AddInClear(nil)) == 0 }

// C19_InsertKinds: every attribute that is asked for is taken from where the provider put it, in the order of the query.
func C19_InsertKinds(g, w, s int64, x, y, z libunlynx.CipherText) (got, want []kyber.Point) {
	r := libunlynx.DpResponse{
		GroupByClear: map[string]int64{"a": g}, GroupByEnc: map[string]libunlynx.CipherText{"b": x, "d": z},
		WhereClear: map[string]int64{"c": w}, WhereEnc: map[string]libunlynx.CipherText{"d": y, "b": z},
		AggregatingAttributesClear: map[string]int64{"e": s}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"f": z, "b": y},
	}
	want = []kyber.Point{x.C, point(g), point(w), y.C, z.C, point(s)}
	st := libunlynxstore.NewStore()
	st.InsertDpResponse(r, false, []string{"b", "a"}, []string{"f", "e"}, []libunlynx.WhereQueryAttribute{{Name: "c"}, {Name: "d"}})
	for _, p := range st.PullDpResponses() {
		for _, c := range p.GroupByEnc {
			got = append(got, c.C)
		}
		for _, c := range p.WhereEnc {
			got = append(got, c.C)
		}
		for _, c := range p.AggregatingAttributes {
			got = append(got, c.C)
		}
	}
	return got, want
}

// C19_KeyApart: groups with different attributes have different names, also when their digits are the same.
func C19_KeyApart(a int64) (pre, ok bool) {
	x, y := libunlynx.Key([]int64{1, 23, a}), libunlynx.Key([]int64{12, 3, a})
	z, w := libunlynx.Key([]int64{a, 1}), libunlynx.Key([]int64{a})
	return true, x != y && z != w
}
