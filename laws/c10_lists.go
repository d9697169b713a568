package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/add_rm"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

// Lists of proofs: an honest list is accepted, it is about the honest inputs, and one wrong element makes the
// verification of the whole list fail, wherever it is.

func at(i, n int) int {
	if i < 0 || i >= n {
		return n - 1
	}
	return i
}

func C10_KSListOneBad(k kyber.Scalar, Q kyber.Point, ks []kyber.Point, i int, d kyber.Point) (pre, ok bool) {
	_, ks2, rb, vis := libunlynxkeyswitch.KeySwitchSequence(Q, ks, k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub(k), Q, k, ks2, rb, vis)
	if err != nil || len(ks) == 0 {
		return false, true
	}
	j := at(i, len(ks))
	l.List[j].Ks2 = add(l.List[j].Ks2, d)
	return !d.Equal(null()), !libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0)
}

func C10_TagListOneBad(k, s kyber.Scalar, cv libunlynx.CipherVector, i int, d kyber.Point) (pre, ok bool) {
	l, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, libunlynxdetertag.DeterministicTagSequence(cv, k, s), pub(k), k, s)
	if err != nil || len(cv) == 0 {
		return false, true
	}
	j := at(i, len(cv))
	l.List[j].CTaft.C = add(l.List[j].CTaft.C, d)
	return !d.Equal(null()), !libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1.0)
}

func tagAdd(ss []kyber.Scalar, d kyber.Point) (cs, c2, r []kyber.Point) {
	for i := range ss {
		cs = append(cs, add(mul(ss[i], d), d))
		c2 = append(c2, pub(ss[i]))
		r = append(r, add(add(mul(ss[i], d), d), pub(ss[i])))
	}
	return cs, c2, r
}

func C10_TagAddListComplete(ss []kyber.Scalar, d kyber.Point) bool {
	cs, c2, r := tagAdd(ss, d)
	l, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(cs, ss, c2, r)
	return err == nil && len(l.List) == len(ss) && libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1.0)
}

func C10_TagAddListAbout(ss []kyber.Scalar, d kyber.Point) (pre, ok bool) {
	cs, c2, r := tagAdd(ss, d)
	l, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(cs, ss, c2, r)
	if err != nil {
		return false, true
	}
	ok = len(l.List) == len(ss)
	for i := range ss {
		ok = ok && l.List[i].C1.Equal(cs[i]) && l.List[i].C2.Equal(c2[i]) && l.List[i].R.Equal(r[i])
	}
	return true, ok
}

func C10_TagAddListOneBad(ss []kyber.Scalar, d kyber.Point, i int, e kyber.Point) (pre, ok bool) {
	cs, c2, r := tagAdd(ss, d)
	l, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(cs, ss, c2, r)
	if err != nil || len(ss) == 0 {
		return false, true
	}
	j := at(i, len(ss))
	l.List[j].R = add(l.List[j].R, e)
	return !e.Equal(null()), !libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1.0)
}

func addRmList(cv libunlynx.CipherVector, k kyber.Scalar, toAdd bool) (libunlynx.CipherVector, libunlynxaddrm.PublishedAddRmListProof, error) {
	after := make(libunlynx.CipherVector, len(cv))
	for i := range cv {
		after[i] = addRm(cv[i], k, toAdd)
	}
	l, err := libunlynxaddrm.AddRmListProofCreation(cv, after, pub(k), k, toAdd)
	return after, l, err
}

func C10_AddRmListAbout(cv libunlynx.CipherVector, k kyber.Scalar, toAdd bool) (pre, ok bool) {
	after, l, err := addRmList(cv, k, toAdd)
	if err != nil {
		return false, true
	}
	ok = len(l.List) == len(cv) && l.Krm.Equal(pub(k)) && l.ToAdd == toAdd
	for i := range cv {
		ok = ok && l.List[i].CtBef.Equal(&cv[i]) && l.List[i].CtAft.Equal(&after[i])
	}
	return true, ok
}

func C10_AddRmListOneBad(cv libunlynx.CipherVector, k kyber.Scalar, toAdd bool, i int, d kyber.Point) (pre, ok bool) {
	_, l, err := addRmList(cv, k, toAdd)
	if err != nil || len(cv) == 0 {
		return false, true
	}
	j := at(i, len(cv))
	l.List[j].CtAft.C = add(l.List[j].CtAft.C, d)
	return !d.Equal(null()), !libunlynxaddrm.AddRmListProofVerification(l, 1.0)
}

// aggregation: vectors of two ciphertexts with their sums

func sums(ss []kyber.Scalar, d, e kyber.Point) (data []libunlynx.CipherVector, res []libunlynx.CipherText) {
	for i := range ss {
		a := libunlynx.CipherText{K: mul(ss[i], d), C: mul(ss[i], e)}
		b := libunlynx.CipherText{K: e, C: d}
		data = append(data, libunlynx.CipherVector{a, b})
		res = append(res, libunlynx.CipherText{K: add(a.K, b.K), C: add(a.C, b.C)})
	}
	return data, res
}

func C10_AggregationListComplete(ss []kyber.Scalar, d, e kyber.Point) bool {
	data, res := sums(ss, d, e)
	l := libunlynxaggr.AggregationListProofCreation(data, res)
	return len(l.List) == len(ss) && libunlynxaggr.AggregationListProofVerification(l, 1.0)
}

func C10_AggregationListAbout(ss []kyber.Scalar, d, e kyber.Point) (got, want []libunlynxaggr.PublishedAggregationProof) {
	data, res := sums(ss, d, e)
	for i := range ss {
		want = append(want, libunlynxaggr.PublishedAggregationProof{Data: data[i], AggregationResult: res[i]})
	}
	return libunlynxaggr.AggregationListProofCreation(data, res).List, want
}

func C10_AggregationListOneBad(ss []kyber.Scalar, d, e kyber.Point, i int, x kyber.Point) (pre, ok bool) {
	data, res := sums(ss, d, e)
	l := libunlynxaggr.AggregationListProofCreation(data, res)
	if len(ss) == 0 {
		return false, true
	}
	j := at(i, len(ss))
	l.List[j].AggregationResult.K = add(l.List[j].AggregationResult.K, x)
	return !x.Equal(null()), !libunlynxaggr.AggregationListProofVerification(l, 1.0)
}

// shuffling: lists of shuffles of two rows with one column

func shuffles(k kyber.Scalar, cs []libunlynx.CipherText, d kyber.Point) (in, out [][]libunlynx.CipherVector, g, h []kyber.Point, beta [][][]kyber.Scalar, pi [][]int) {
	for i := range cs {
		rows := []libunlynx.CipherVector{{cs[i]}, {libunlynx.CipherText{K: d, C: add(cs[i].C, d)}}}
		o, p, b := libunlynxshuffle.ShuffleSequence(rows, base(), pub(k), nil)
		in, out, g, h, beta, pi = append(in, rows), append(out, o), append(g, base()), append(h, pub(k)), append(beta, b), append(pi, p)
	}
	return in, out, g, h, beta, pi
}

func C10_ShuffleListComplete(k kyber.Scalar, cs []libunlynx.CipherText, d kyber.Point) bool {
	l, err := libunlynxshuffle.ShuffleListProofCreation(shuffles(k, cs, d))
	return err == nil && len(l.List) == len(cs) && libunlynxshuffle.ShuffleListProofVerification(l, pub(k), 1.0)
}

func C10_ShuffleListAbout(k kyber.Scalar, cs []libunlynx.CipherText, d kyber.Point) (pre, ok bool) {
	in, out, g, h, beta, pi := shuffles(k, cs, d)
	l, err := libunlynxshuffle.ShuffleListProofCreation(in, out, g, h, beta, pi)
	if err != nil {
		return false, true
	}
	ok = len(l.List) == len(cs)
	for i := range cs {
		q := l.List[i]
		ok = ok && len(q.OriginalList) == 2 && len(q.ShuffledList) == 2 && q.G.Equal(base()) && q.H.Equal(pub(k))
		for r := range q.OriginalList {
			ok = ok && q.OriginalList[r][0].Equal(&in[i][r][0]) && q.ShuffledList[r][0].Equal(&out[i][r][0])
		}
	}
	return true, ok
}

func C10_ShuffleListOneBad(k kyber.Scalar, cs []libunlynx.CipherText, d kyber.Point, i int, x kyber.Point) (pre, ok bool) {
	l, err := libunlynxshuffle.ShuffleListProofCreation(shuffles(k, cs, d))
	if err != nil || len(cs) == 0 {
		return false, true
	}
	j := at(i, len(cs))
	l.List[j].ShuffledList[0][0].C = add(l.List[j].ShuffledList[0][0].C, x)
	return !x.Equal(null()), !libunlynxshuffle.ShuffleListProofVerification(l, pub(k), 1.0)
}

// two rows with any number of columns

func wide(a libunlynx.CipherVector, d kyber.Point) []libunlynx.CipherVector {
	b := make(libunlynx.CipherVector, len(a))
	for i := range a {
		b[i] = libunlynx.CipherText{K: add(a[i].K, d), C: sub(a[i].C, d)}
	}
	return []libunlynx.CipherVector{a, b}
}

func C10_ShuffleWideComplete(k kyber.Scalar, a libunlynx.CipherVector, d kyber.Point) (pre, ok bool) {
	in := wide(a, d)
	if len(a) == 0 {
		return false, true
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	return true, err == nil && libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

func C10_ShuffleWideBad(k kyber.Scalar, a libunlynx.CipherVector, d kyber.Point, i, j int, x kyber.Point) (pre, ok bool) {
	in := wide(a, d)
	if len(a) == 0 {
		return false, true
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	if err != nil {
		return false, true
	}
	r, c := at(i, 2), at(j, len(a))
	p.ShuffledList[r][c].C = add(p.ShuffledList[r][c].C, x)
	return !x.Equal(null()), !libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

// C10_AggregationData: an aggregation proof is about every part that was added up, attribute by attribute.
func C10_AggregationData(key libunlynx.GroupingKey, a, b, c, d, e, f libunlynx.CipherText) (got, want []libunlynx.CipherText) {
	m := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
	for _, v := range []libunlynx.CipherVector{{a, b}, {c, d}, {e, f}} {
		r := libunlynx.FilteredResponseDet{DetTagGroupBy: key, Fr: libunlynx.FilteredResponse{AggregatingAttributes: v}}
		r.FormatAggregationProofs(m)
	}
	for _, v := range m[key] {
		got = append(got, v...)
	}
	return got, []libunlynx.CipherText{a, c, e, b, d, f}
}
