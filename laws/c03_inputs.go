package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/add_rm"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/random"
)

// Every law takes a copy of what an operation is given, runs it, and compares.

func keepCT(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
}

func keepCV(cv libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(cv))
	for i := range cv {
		out[i] = keepCT(cv[i])
	}
	return out
}

func keepLines(l []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(l))
	for i := range l {
		out[i] = keepCV(l[i])
	}
	return out
}

func keepPoints(l []kyber.Point) []kyber.Point {
	out := make([]kyber.Point, len(l))
	for i := range l {
		out[i] = l[i].Clone()
	}
	return out
}

func keepScalars(l []kyber.Scalar) []kyber.Scalar {
	out := make([]kyber.Scalar, len(l))
	for i := range l {
		out[i] = l[i].Clone()
	}
	return out
}

func sameCT(a, b libunlynx.CipherText) bool { return a.K.Equal(b.K) && a.C.Equal(b.C) }

func C03_Add(a, b libunlynx.CipherText) bool {
	a0, b0 := keepCT(a), keepCT(b)
	c := libunlynx.NewCipherText()
	c.Add(a, b)
	return sameCT(a, a0) && sameCT(b, b0)
}

func C03_Sub(a, b libunlynx.CipherText) bool {
	a0, b0 := keepCT(a), keepCT(b)
	c := libunlynx.NewCipherText()
	c.Sub(a, b)
	return sameCT(a, a0) && sameCT(b, b0)
}

func C03_Mul(a libunlynx.CipherText, s kyber.Scalar) bool {
	a0, s0 := keepCT(a), s.Clone()
	c := libunlynx.NewCipherText()
	c.MulCipherTextbyScalar(a, s)
	return sameCT(a, a0) && s.Equal(s0)
}

func C03_VectorAdd(a, b libunlynx.CipherVector) (pre bool, got, want []libunlynx.CipherVector) {
	if len(a) != len(b) {
		return false, nil, nil
	}
	a0, b0 := keepCV(a), keepCV(b)
	c := libunlynx.NewCipherVector(len(a))
	c.Add(a, b)
	return true, []libunlynx.CipherVector{a, b}, []libunlynx.CipherVector{a0, b0}
}

func C03_VectorSub(a, b libunlynx.CipherVector) (pre bool, got, want []libunlynx.CipherVector) {
	if len(a) != len(b) {
		return false, nil, nil
	}
	a0, b0 := keepCV(a), keepCV(b)
	c := libunlynx.NewCipherVector(len(a))
	c.Sub(a, b)
	return true, []libunlynx.CipherVector{a, b}, []libunlynx.CipherVector{a0, b0}
}

func C03_Acum(cv libunlynx.CipherVector) (pre bool, got, want libunlynx.CipherVector) {
	if len(cv) == 0 {
		return false, nil, nil
	}
	cv0 := keepCV(cv)
	cv.Acum()
	return true, cv, cv0
}

// The sum is the caller's own: changing it does not change what was summed.
func C03_AcumOwn(cv libunlynx.CipherVector, d libunlynx.CipherText) (pre bool, got, want libunlynx.CipherVector) {
	if len(cv) == 0 {
		return false, nil, nil
	}
	cv0 := keepCV(cv)
	s := cv.Acum()
	s.Add(s, d)
	return true, cv, cv0
}

func C03_Encrypt(Q kyber.Point, x int64, s kyber.Scalar) bool {
	Q0, s0 := Q.Clone(), s.Clone()
	libunlynx.EncryptInt(Q, x)
	libunlynx.EncryptIntGetR(Q, x)
	libunlynx.EncryptScalar(Q, s)
	return Q.Equal(Q0) && s.Equal(s0)
}

func C03_EncryptVectors(Q kyber.Point, xs []int64, s []kyber.Scalar) (got, want []kyber.Scalar) {
	Q0, s0 := Q.Clone(), keepScalars(s)
	libunlynx.EncryptIntVector(Q, xs)
	libunlynx.EncryptIntVectorGetRs(Q, xs)
	libunlynx.EncryptScalarVector(Q, s)
	libunlynx.NullCipherVector(len(xs), Q)
	if !Q.Equal(Q0) {
		return nil, []kyber.Scalar{nil}
	}
	return s, s0
}

func C03_Decrypt(k kyber.Scalar, c libunlynx.CipherText) bool {
	k0, c0 := k.Clone(), keepCT(c)
	libunlynx.DecryptInt(k, c)
	libunlynx.DecryptIntWithNeg(k, c)
	libunlynx.DecryptCheckZero(k, c)
	return k.Equal(k0) && sameCT(c, c0)
}

func C03_DecryptVector(k kyber.Scalar, cv libunlynx.CipherVector) (got, want libunlynx.CipherVector) {
	k0, cv0 := k.Clone(), keepCV(cv)
	libunlynx.DecryptIntVector(k, &cv)
	libunlynx.DecryptCheckZeroVector(k, &cv)
	if !k.Equal(k0) {
		return nil, libunlynx.CipherVector{{}}
	}
	return cv, cv0
}

func C03_Split(s kyber.Scalar, n int) (pre, ok bool) {
	s0 := s.Clone()
	libunlynx.SplitScalar(s, n)
	return n > 0, s.Equal(s0)
}

func C03_KeySwitch(Q, rB kyber.Point, k kyber.Scalar) bool {
	Q0, r0, k0 := Q.Clone(), rB.Clone(), k.Clone()
	libunlynxkeyswitch.KeySwitch(Q, rB, k)
	return Q.Equal(Q0) && rB.Equal(r0) && k.Equal(k0)
}

func C03_KeySwitchSequence(Q kyber.Point, rBs []kyber.Point, k kyber.Scalar) (got, want []kyber.Point) {
	Q0, r0, k0 := Q.Clone(), keepPoints(rBs), k.Clone()
	libunlynxkeyswitch.KeySwitchSequence(Q, rBs, k)
	if !Q.Equal(Q0) || !k.Equal(k0) {
		return nil, []kyber.Point{nil}
	}
	return rBs, r0
}

func C03_KeySwitchProof(K, Q kyber.Point, k kyber.Scalar) bool {
	ks, rb, vi := libunlynxkeyswitch.KeySwitch(Q, K, k)
	vb, pk := pub(vi), pub(k)
	K0, Q0, k0, v0, s0, r0, vb0, pk0 := K.Clone(), Q.Clone(), k.Clone(), vi.Clone(), ks.C.Clone(), rb.Clone(), vb.Clone(), pk.Clone()
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(pk, Q, k, vb, ks.C, rb, vi)
	if err == nil {
		libunlynxkeyswitch.KeySwitchProofVerification(p)
	}
	return K.Equal(K0) && Q.Equal(Q0) && k.Equal(k0) && vi.Equal(v0) && ks.C.Equal(s0) && rb.Equal(r0) && vb.Equal(vb0) && pk.Equal(pk0)
}

func C03_Tag(c libunlynx.CipherText, k, s kyber.Scalar) bool {
	c0, k0, s0 := keepCT(c), k.Clone(), s.Clone()
	libunlynxdetertag.DeterministicTag(c, k, s)
	return sameCT(c, c0) && k.Equal(k0) && s.Equal(s0)
}

func C03_TagSequence(cv libunlynx.CipherVector, k, s kyber.Scalar) (got, want libunlynx.CipherVector) {
	cv0, k0, s0 := keepCV(cv), k.Clone(), s.Clone()
	libunlynxdetertag.DeterministicTagSequence(cv, k, s)
	if !k.Equal(k0) || !s.Equal(s0) {
		return nil, libunlynx.CipherVector{{}}
	}
	return cv, cv0
}

func C03_TagProof(c libunlynx.CipherText, k, s kyber.Scalar) bool {
	c0, k0, s0 := keepCT(c), k.Clone(), s.Clone()
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	t0, K := keepCT(t), pub(k)
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, t, K, k, s)
	if err == nil {
		libunlynxdetertag.DeterministicTagCrProofVerification(p, K, pub(s))
	}
	return sameCT(c, c0) && sameCT(t, t0) && k.Equal(k0) && s.Equal(s0) && K.Equal(pub(k))
}

func C03_TagAddProof(a kyber.Point, s kyber.Scalar) bool {
	b := pub(s)
	r := libunlynx.SuiTe.Point().Add(a, b)
	a0, b0, r0, s0 := a.Clone(), b.Clone(), r.Clone(), s.Clone()
	p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(a, s, b, r)
	if err == nil {
		libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
	}
	return a.Equal(a0) && b.Equal(b0) && r.Equal(r0) && s.Equal(s0)
}

func C03_TagAddProofFalse(a, b, r kyber.Point, s kyber.Scalar) bool {
	a0, b0, r0, s0 := a.Clone(), b.Clone(), r.Clone(), s.Clone()
	p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(a, s, b, r)
	if err == nil {
		libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
	}
	return a.Equal(a0) && b.Equal(b0) && r.Equal(r0) && s.Equal(s0)
}

func C03_AddRmProof(c libunlynx.CipherText, k kyber.Scalar, toAdd bool) bool {
	c0, k0 := keepCT(c), k.Clone()
	t := addRm(c, k, toAdd)
	t0, K := keepCT(t), pub(k)
	p, err := libunlynxaddrm.AddRmProofCreation(c, t, K, k, toAdd)
	if err == nil {
		libunlynxaddrm.AddRmProofVerification(p, K, toAdd)
	}
	return sameCT(c, c0) && sameCT(t, t0) && k.Equal(k0) && K.Equal(pub(k))
}

func C03_AggregationProof(cv libunlynx.CipherVector, r libunlynx.CipherText) (pre bool, got, want libunlynx.CipherVector) {
	if len(cv) == 0 {
		return false, nil, nil
	}
	cv0, r0 := keepCV(cv), keepCT(r)
	libunlynxaggr.AggregationProofVerification(libunlynxaggr.AggregationProofCreation(cv, r))
	if !sameCT(r, r0) {
		return true, nil, libunlynx.CipherVector{{}}
	}
	return true, cv, cv0
}

func C03_Shuffle(k kyber.Scalar, in []libunlynx.CipherVector, n int) (pre bool, got, want []libunlynx.CipherVector) {
	if !rect(in, n) {
		return false, nil, nil
	}
	in0, H, G := keepLines(in), pub(k), base()
	libunlynxshuffle.ShuffleSequence(in, G, H, nil)
	if !H.Equal(pub(k)) || !G.Equal(base()) {
		return true, nil, []libunlynx.CipherVector{nil}
	}
	return true, in, in0
}

// A line that stays in place is a line of its own: changing the output leaves the input.
func C03_ShuffleOwn(k kyber.Scalar, a, b libunlynx.CipherText, d kyber.Point) bool {
	a0, b0 := keepCT(a), keepCT(b)
	in := []libunlynx.CipherVector{{a}, {b}}
	out, _, _ := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	for i := range out {
		out[i][0].K.Add(out[i][0].K, d)
		out[i][0].C.Add(out[i][0].C, d)
	}
	return sameCT(in[0][0], a0) && sameCT(in[1][0], b0)
}

func C03_ShuffleProofBlinding(k kyber.Scalar, a, b, c, d libunlynx.CipherText) (ok bool) {
	in := []libunlynx.CipherVector{{a, b}, {c, d}}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	b0, b1 := keepScalars(beta[0]), keepScalars(beta[1])
	libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	return beta[0][0].Equal(b0[0]) && beta[0][1].Equal(b0[1]) && beta[1][0].Equal(b1[0]) && beta[1][1].Equal(b1[1])
}

// The precomputed blinding is used again by the next shuffle.
func C03_ShufflePrecomputed(k, s kyber.Scalar, a, b libunlynx.CipherText) bool {
	pre := []libunlynxshuffle.CipherVectorScalar{
		{S: []kyber.Scalar{s}, CipherV: libunlynx.CipherVector{{K: pub(s), C: libunlynx.SuiTe.Point().Mul(s, pub(k))}}},
		{S: []kyber.Scalar{k}, CipherV: libunlynx.CipherVector{{K: pub(k), C: libunlynx.SuiTe.Point().Mul(k, pub(k))}}},
	}
	s0, p0, p1 := s.Clone(), keepCT(pre[0].CipherV[0]), keepCT(pre[1].CipherV[0])
	libunlynxshuffle.ShuffleSequence([]libunlynx.CipherVector{{a}, {b}}, base(), pub(k), pre)
	return pre[0].S[0].Equal(s0) && sameCT(pre[0].CipherV[0], p0) && sameCT(pre[1].CipherV[0], p1)
}

func C03_Precompute(k kyber.Scalar, lineSize, n int) (pre, ok bool) {
	if lineSize < 0 || n < 0 {
		return false, true
	}
	G, H := base(), pub(k)
	libunlynxshuffle.CreatePrecomputedRandomize(G, H, random.New(), lineSize, n)
	return true, G.Equal(base()) && H.Equal(pub(k))
}

func C03_ShuffleProof(k kyber.Scalar, a, b libunlynx.CipherText) (got, want []libunlynx.CipherVector) {
	in := []libunlynx.CipherVector{{a}, {b}}
	in0 := keepLines(in)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	out0 := keepLines(out)
	b00, b10 := beta[0][0].Clone(), beta[1][0].Clone()
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	if !beta[0][0].Equal(b00) || !beta[1][0].Equal(b10) {
		return nil, []libunlynx.CipherVector{nil}
	}
	if err == nil {
		libunlynxshuffle.ShuffleProofVerification(p, pub(k))
	}
	return append(append([]libunlynx.CipherVector{}, in...), out...), append(append([]libunlynx.CipherVector{}, in0...), out0...)
}

func C03_FilteredAdd(a, b libunlynx.FilteredResponse) (pre bool, got, want []libunlynx.CipherVector) {
	if len(a.GroupByEnc) != len(b.GroupByEnc) || len(a.AggregatingAttributes) != len(b.AggregatingAttributes) {
		return false, nil, nil
	}
	want = []libunlynx.CipherVector{keepCV(a.AggregatingAttributes), keepCV(b.AggregatingAttributes), keepCV(a.GroupByEnc), keepCV(b.GroupByEnc)}
	r := libunlynx.NewFilteredResponse(len(a.GroupByEnc), len(a.AggregatingAttributes))
	r.Add(a, b)
	return true, []libunlynx.CipherVector{a.AggregatingAttributes, b.AggregatingAttributes, a.GroupByEnc, b.GroupByEnc}, want
}

// Adding to a group of the collection changes neither the response added nor the one that was added before.
func C03_AddInMap(key libunlynx.GroupingKey, a, b libunlynx.CipherText) bool {
	a0, b0 := keepCT(a), keepCT(b)
	m := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	libunlynx.AddInMap(m, key, libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{a}})
	libunlynx.AddInMap(m, key, libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{b}})
	libunlynx.AddInMap(m, key, libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{b}})
	return sameCT(a, a0) && sameCT(b, b0)
}

// The data of the providers is left as it was sent, also where several responses are summed.
func C03_Insert(x int64, a, b libunlynx.CipherText, proofs bool) bool {
	a0, b0 := keepCT(a), keepCT(b)
	s := libunlynxstore.NewStore()
	for _, c := range []libunlynx.CipherText{a, b, a} {
		s.InsertDpResponse(libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": x}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{"s0": c}}, proofs, []string{"g0"}, []string{"s0"}, nil)
	}
	s.PullDpResponses()
	return sameCT(a, a0) && sameCT(b, b0)
}

func C03_LocalAggregation(key libunlynx.GroupingKey, a, b libunlynx.CipherText, proofs bool) bool {
	a0, b0 := keepCT(a), keepCT(b)
	s := libunlynxstore.NewStore()
	var in []libunlynx.FilteredResponseDet
	for _, c := range []libunlynx.CipherText{a, b, a} {
		in = append(in, libunlynx.FilteredResponseDet{DetTagGroupBy: key, Fr: libunlynx.FilteredResponse{AggregatingAttributes: libunlynx.CipherVector{c}}})
	}
	s.PushDeterministicFilteredResponses(in, "", proofs)
	return sameCT(a, a0) && sameCT(b, b0)
}

func C03_Matrix(pr []libunlynx.ProcessResponse) (got, want []libunlynx.CipherVector) {
	for _, p := range pr {
		want = append(want, keepCV(p.WhereEnc), keepCV(p.GroupByEnc), keepCV(p.AggregatingAttributes))
	}
	protocolsunlynx.ProcessResponseToMatrixCipherText(pr)
	protocolsunlynx.ProcessResponseToCipherVector(pr)
	for _, p := range pr {
		got = append(got, p.WhereEnc, p.GroupByEnc, p.AggregatingAttributes)
	}
	return got, want
}

func C03_Encode(c libunlynx.CipherText, cv libunlynx.CipherVector) (got, want libunlynx.CipherVector) {
	c0, cv0 := keepCT(c), keepCV(cv)
	c.ToBytes()
	c.Serialize()
	cv.ToBytes()
	libunlynx.ArrayCipherVectorToBytes([]libunlynx.CipherVector{cv, {c}})
	if !sameCT(c, c0) {
		return nil, libunlynx.CipherVector{{}}
	}
	return cv, cv0
}

// A decoded value is independent of the bytes it was read from, and of other values read from them.
func C03_Decode(c libunlynx.CipherText, d kyber.Point) (pre, ok bool) {
	b, err := c.ToBytes()
	x, y := libunlynx.CipherText{}, libunlynx.CipherText{}
	err2, err3 := x.FromBytes(b), y.FromBytes(b)
	if err != nil || err2 != nil || err3 != nil {
		return true, false
	}
	x.K.Add(x.K, d)
	x.C.Add(x.C, d)
	return true, sameCT(y, c)
}

func C03_EncryptResponse(Q kyber.Point, r libunlynx.DpClearResponse, count bool, k string) (got, want []int64) {
	Q0 := Q.Clone()
	want = []int64{r.GroupByEnc[k], r.GroupByClear[k], r.WhereEnc[k], r.WhereClear[k], r.AggregatingAttributesEnc[k], r.AggregatingAttributesClear[k]}
	n := len(r.AggregatingAttributesEnc)
	_, err := libunlynx.EncryptDpClearResponse(r, Q, count)
	if err != nil || !Q.Equal(Q0) || len(r.AggregatingAttributesEnc) != n {
		return nil, want
	}
	return []int64{r.GroupByEnc[k], r.GroupByClear[k], r.WhereEnc[k], r.WhereClear[k], r.AggregatingAttributesEnc[k], r.AggregatingAttributesClear[k]}, want
}
