package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/add_rm"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

// key switching

func C10_KSComplete(K kyber.Point, k kyber.Scalar, Q kyber.Point) bool {
	sw, rb, v := libunlynxkeyswitch.KeySwitch(Q, K, k)
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(pub(k), Q, k, sw.K, sw.C, rb, v)
	return err == nil && libunlynxkeyswitch.KeySwitchProofVerification(p)
}

// an honest proof is about exactly these five points
func C10_KSBound(K kyber.Point, k kyber.Scalar, Q, dK, dV, dS, dR, dQ kyber.Point) (pre, got, want bool) {
	sw, rb, v := libunlynxkeyswitch.KeySwitch(Q, K, k)
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(pub(k), Q, k, sw.K, sw.C, rb, v)
	same := dK.Equal(null()) && dV.Equal(null()) && dS.Equal(null()) && dR.Equal(null()) && dQ.Equal(null())
	p.K = add(p.K, dK)
	p.ViB = add(p.ViB, dV)
	p.Ks2 = add(p.Ks2, dS)
	p.RbNeg = add(p.RbNeg, dR)
	p.Q = add(p.Q, dQ)
	return err == nil, libunlynxkeyswitch.KeySwitchProofVerification(p), same
}

func ksWith(k, v kyber.Scalar, Q, rb, dK, dV, dS kyber.Point) (libunlynxkeyswitch.PublishedKSProof, error) {
	return libunlynxkeyswitch.KeySwitchProofCreation(add(pub(k), dK), Q, k, add(pub(v), dV), add(add(mul(k, rb), mul(v, Q)), dS), rb, v)
}

func C10_KSWrongK(k, v kyber.Scalar, Q, rb, d kyber.Point) (pre, ok bool) {
	p, err := ksWith(k, v, Q, rb, d, null(), null())
	return !d.Equal(null()), err != nil || !libunlynxkeyswitch.KeySwitchProofVerification(p)
}

func C10_KSWrongViB(k, v kyber.Scalar, Q, rb, d kyber.Point) (pre, ok bool) {
	p, err := ksWith(k, v, Q, rb, null(), d, null())
	return !d.Equal(null()), err != nil || !libunlynxkeyswitch.KeySwitchProofVerification(p)
}

func C10_KSWrongKs2(k, v kyber.Scalar, Q, rb, d kyber.Point) (pre, ok bool) {
	p, err := ksWith(k, v, Q, rb, null(), null(), d)
	return !d.Equal(null()), err != nil || !libunlynxkeyswitch.KeySwitchProofVerification(p)
}

func C10_KSListComplete(k kyber.Scalar, Q kyber.Point, ks []kyber.Point) bool {
	_, ks2, rb, vis := libunlynxkeyswitch.KeySwitchSequence(Q, ks, k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub(k), Q, k, ks2, rb, vis)
	return err == nil && len(l.List) == len(ks) && libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0)
}

func C10_KSListAll(l libunlynxkeyswitch.PublishedKSListProof) (got, want bool) {
	want = true
	for i := range l.List {
		want = want && libunlynxkeyswitch.KeySwitchProofVerification(l.List[i])
	}
	return libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0), want
}

func C10_KSListAbout(k kyber.Scalar, Q kyber.Point, ks []kyber.Point) (pre, ok bool) {
	sw, ks2, rb, vis := libunlynxkeyswitch.KeySwitchSequence(Q, ks, k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub(k), Q, k, ks2, rb, vis)
	ok = len(l.List) == len(ks)
	for i := range ks {
		p := l.List[i]
		ok = ok && p.K.Equal(pub(k)) && p.Q.Equal(Q) && p.ViB.Equal(sw[i].K) && p.Ks2.Equal(sw[i].C) && p.RbNeg.Equal(sub(null(), ks[i]))
	}
	return err == nil, ok
}

// deterministic tags, creation

func C10_TagComplete(k, s kyber.Scalar, c libunlynx.CipherText) bool {
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, libunlynxdetertag.DeterministicTag(c, k, s), pub(k), k, s)
	return err == nil && libunlynxdetertag.DeterministicTagCrProofVerification(p, pub(k), pub(s))
}

func C10_TagBound(k, s kyber.Scalar, c libunlynx.CipherText, dBK, dBC, dAK, dAC, dK, dS kyber.Point) (pre, got, want bool) {
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, libunlynxdetertag.DeterministicTag(c, k, s), pub(k), k, s)
	same := dBK.Equal(null()) && dBC.Equal(null()) && dAK.Equal(null()) && dAC.Equal(null()) && dK.Equal(null()) && dS.Equal(null())
	p.CTbef.K = add(p.CTbef.K, dBK)
	p.CTbef.C = add(p.CTbef.C, dBC)
	p.CTaft.K = add(p.CTaft.K, dAK)
	p.CTaft.C = add(p.CTaft.C, dAC)
	return err == nil, libunlynxdetertag.DeterministicTagCrProofVerification(p, add(pub(k), dK), add(pub(s), dS)), same
}

func C10_TagWrongC(k, s kyber.Scalar, c libunlynx.CipherText, d kyber.Point) (pre, ok bool) {
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	t.C = add(t.C, d)
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, t, pub(k), k, s)
	return !d.Equal(null()), err != nil || !libunlynxdetertag.DeterministicTagCrProofVerification(p, pub(k), pub(s))
}

func C10_TagWrongK(k, s kyber.Scalar, c libunlynx.CipherText, d kyber.Point) (pre, ok bool) {
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	t.K = add(t.K, d)
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, t, pub(k), k, s)
	return !d.Equal(null()), err != nil || !libunlynxdetertag.DeterministicTagCrProofVerification(p, pub(k), pub(s))
}

func C10_TagWrongKeys(k, s kyber.Scalar, c libunlynx.CipherText, dK, dS kyber.Point) (pre, ok bool) {
	p, err := libunlynxdetertag.DeterministicTagCrProofCreation(c, libunlynxdetertag.DeterministicTag(c, k, s), add(pub(k), dK), k, s)
	return !dK.Equal(null()) && !dS.Equal(null()), err != nil || (!libunlynxdetertag.DeterministicTagCrProofVerification(p, pub(k), add(pub(s), dS)) && !libunlynxdetertag.DeterministicTagCrProofVerification(p, add(pub(k), dK), pub(s)))
}

func C10_TagForged(k, s kyber.Scalar, c libunlynx.CipherText, d kyber.Point, q libunlynxdetertag.PublishedDDTCreationProof) (pre, ok bool) {
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	q.CTbef, q.CTaft = c, libunlynx.CipherText{K: t.K, C: add(t.C, d)}
	// the prover picks the free point so that the predicate is satisfied
	q.Ciminus11Si = mul(libunlynx.SuiTe.Scalar().Inv(k), sub(q.CTaft.C, mul(s, c.C)))
	return !d.Equal(null()), !libunlynxdetertag.DeterministicTagCrProofVerification(q, pub(k), pub(s))
}

func C10_TagListComplete(k, s kyber.Scalar, cv libunlynx.CipherVector) bool {
	l, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, libunlynxdetertag.DeterministicTagSequence(cv, k, s), pub(k), k, s)
	return err == nil && len(l.List) == len(cv) && l.K.Equal(pub(k)) && l.SB.Equal(pub(s)) && libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1.0)
}

func C10_TagListAll(l libunlynxdetertag.PublishedDDTCreationListProof) (got, want bool) {
	want = true
	for i := range l.List {
		want = want && libunlynxdetertag.DeterministicTagCrProofVerification(l.List[i], l.K, l.SB)
	}
	return libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1.0), want
}

func C10_TagListAbout(k, s kyber.Scalar, cv libunlynx.CipherVector) (pre, ok bool) {
	t := libunlynxdetertag.DeterministicTagSequence(cv, k, s)
	l, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, t, pub(k), k, s)
	ok = len(l.List) == len(cv)
	for i := range cv {
		ok = ok && l.List[i].CTbef.Equal(&cv[i]) && l.List[i].CTaft.Equal(&t[i])
	}
	return err == nil, ok
}

// deterministic tags, addition

func C10_TagAddComplete(c kyber.Point, s kyber.Scalar) bool {
	p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(c, s, pub(s), add(c, pub(s)))
	return err == nil && libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
}

func C10_TagAddBound(c kyber.Point, s kyber.Scalar, d1, d2, dr kyber.Point) (pre, got, want bool) {
	p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(c, s, pub(s), add(c, pub(s)))
	p.C1 = add(p.C1, d1)
	p.C2 = add(p.C2, d2)
	p.R = add(p.R, dr)
	return err == nil, libunlynxdetertag.DeterministicTagAdditionProofVerification(p), d2.Equal(null()) && d1.Equal(dr)
}

func C10_TagAddWrongC2(c kyber.Point, s kyber.Scalar, d kyber.Point) (pre, ok bool) {
	c2 := add(pub(s), d)
	p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(c, s, c2, add(c, c2))
	return !d.Equal(null()), err != nil || !libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
}

func C10_TagAddListAll(l libunlynxdetertag.PublishedDDTAdditionListProof) (got, want bool) {
	want = true
	for i := range l.List {
		want = want && libunlynxdetertag.DeterministicTagAdditionProofVerification(l.List[i])
	}
	return libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1.0), want
}

// adding and removing servers

func addRm(c libunlynx.CipherText, k kyber.Scalar, toAdd bool) libunlynx.CipherText {
	if toAdd {
		return libunlynx.CipherText{K: c.K, C: add(c.C, mul(k, c.K))}
	}
	return libunlynx.CipherText{K: c.K, C: sub(c.C, mul(k, c.K))}
}

func C10_AddRmComplete(c libunlynx.CipherText, k kyber.Scalar, toAdd bool) bool {
	p, err := libunlynxaddrm.AddRmProofCreation(c, addRm(c, k, toAdd), pub(k), k, toAdd)
	return err == nil && libunlynxaddrm.AddRmProofVerification(p, pub(k), toAdd)
}

func C10_AddRmBound(c libunlynx.CipherText, k kyber.Scalar, toAdd bool, dBK, dBC, dAK, dAC, dK kyber.Point) (pre, got, want bool) {
	p, err := libunlynxaddrm.AddRmProofCreation(c, addRm(c, k, toAdd), pub(k), k, toAdd)
	p.CtBef.K = add(p.CtBef.K, dBK)
	p.CtBef.C = add(p.CtBef.C, dBC)
	p.CtAft.K = add(p.CtAft.K, dAK)
	p.CtAft.C = add(p.CtAft.C, dAC)
	return err == nil, libunlynxaddrm.AddRmProofVerification(p, add(pub(k), dK), toAdd), dBK.Equal(null()) && dAK.Equal(null()) && dK.Equal(null()) && dBC.Equal(dAC)
}

func C10_AddRmDirection(c libunlynx.CipherText, k kyber.Scalar, toAdd bool) (pre, ok bool) {
	p, err := libunlynxaddrm.AddRmProofCreation(c, addRm(c, k, toAdd), pub(k), k, toAdd)
	return err == nil && !mul(k, c.K).Equal(null()), !libunlynxaddrm.AddRmProofVerification(p, pub(k), !toAdd)
}

func C10_AddRmWrong(c libunlynx.CipherText, k kyber.Scalar, toAdd bool, d kyber.Point) (pre, ok bool) {
	t := addRm(c, k, toAdd)
	t.C = add(t.C, d)
	p, err := libunlynxaddrm.AddRmProofCreation(c, t, pub(k), k, toAdd)
	return !d.Equal(null()), err != nil || !libunlynxaddrm.AddRmProofVerification(p, pub(k), toAdd)
}

func C10_AddRmListComplete(cv libunlynx.CipherVector, k kyber.Scalar, toAdd bool) bool {
	after := make(libunlynx.CipherVector, len(cv))
	for i := range cv {
		after[i] = addRm(cv[i], k, toAdd)
	}
	l, err := libunlynxaddrm.AddRmListProofCreation(cv, after, pub(k), k, toAdd)
	return err == nil && len(l.List) == len(cv) && libunlynxaddrm.AddRmListProofVerification(l, 1.0)
}

func C10_AddRmListAll(l libunlynxaddrm.PublishedAddRmListProof) (got, want bool) {
	want = true
	for i := range l.List {
		want = want && libunlynxaddrm.AddRmProofVerification(l.List[i], l.Krm, l.ToAdd)
	}
	return libunlynxaddrm.AddRmListProofVerification(l, 1.0), want
}

// aggregation

func C10_AggregationExact(data libunlynx.CipherVector, res libunlynx.CipherText) (pre, got, want bool) {
	sum := libunlynx.CipherText{K: null(), C: null()}
	for i := range data {
		sum.K = add(sum.K, data[i].K)
		sum.C = add(sum.C, data[i].C)
	}
	return len(data) > 0, libunlynxaggr.AggregationProofVerification(libunlynxaggr.AggregationProofCreation(data, res)), sum.K.Equal(res.K) && sum.C.Equal(res.C)
}

func C10_AggregationComplete(data libunlynx.CipherVector) (pre, ok bool) {
	return len(data) > 0, libunlynxaggr.AggregationProofVerification(libunlynxaggr.AggregationProofCreation(data, data.Acum()))
}

// shuffling

func rect(in []libunlynx.CipherVector, n int) bool {
	ok := len(in) > 1 && n > 0
	for i := range in {
		ok = ok && len(in[i]) == n
	}
	return ok
}

func C10_ShuffleComplete(k kyber.Scalar, in []libunlynx.CipherVector, n int) (pre, ok bool) {
	if !rect(in, n) {
		return false, true
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	return true, err == nil && libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

func C10_ShuffleWrongKey(k kyber.Scalar, in []libunlynx.CipherVector, n int, d kyber.Point) (pre, ok bool) {
	if !rect(in, n) {
		return false, true
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), add(pub(k), d), nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), add(pub(k), d), beta, pi)
	return err == nil && !d.Equal(null()), !libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

func C10_ShuffleListAll(l libunlynxshuffle.PublishedShufflingListProof, key kyber.Point) (got, want bool) {
	want = true
	for i := range l.List {
		want = want && libunlynxshuffle.ShuffleProofVerification(l.List[i], key)
	}
	return libunlynxshuffle.ShuffleListProofVerification(l, key, 1.0), want
}

func C10_ShuffleBound(k kyber.Scalar, in []libunlynx.CipherVector, n, i, j int, d kyber.Point, where int) (pre, ok bool) {
	if !rect(in, n) {
		return false, true
	}
	if i < 0 || i >= len(in) {
		i = 0
	}
	if j < 0 || j >= n {
		j = n - 1
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	switch where {
	case 0:
		p.ShuffledList[i][j].K = add(p.ShuffledList[i][j].K, d)
	case 1:
		p.ShuffledList[i][j].C = add(p.ShuffledList[i][j].C, d)
	case 2:
		p.OriginalList[i][j].K = add(p.OriginalList[i][j].K, d)
	default:
		p.OriginalList[i][j].C = add(p.OriginalList[i][j].C, d)
	}
	return err == nil && !d.Equal(null()), !libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

// a change spread over two columns so that it vanishes when the columns are
// combined with the challenges known beforehand
func C10_ShuffleSpread(k kyber.Scalar, in []libunlynx.CipherVector, n int, d kyber.Point) (pre, ok bool) {
	if !rect(in, n) || n < 2 {
		return false, true
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	e, err1 := libunlynxshuffle.CipherVectorComputeE(pub(k), in[0])
	out[0][0].C = add(out[0][0].C, mul(e[1], d))
	out[0][1].C = sub(out[0][1].C, mul(e[0], d))
	p, err2 := libunlynxshuffle.ShuffleProofCreation(in, out, base(), pub(k), beta, pi)
	return err1 == nil && err2 == nil && !d.Equal(null()), !libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

// a value moved from one column to the next, where the first line has the same ciphertext in both
func C10_ShuffleTraded(k kyber.Scalar, c libunlynx.CipherText, in libunlynx.CipherVector, d kyber.Point) (pre, ok bool) {
	if len(in) != 2 {
		return false, true
	}
	l := []libunlynx.CipherVector{{c, c}, in}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(l, base(), pub(k), nil)
	out[0][0].C = add(out[0][0].C, d)
	out[0][1].C = sub(out[0][1].C, d)
	p, err := libunlynxshuffle.ShuffleProofCreation(l, out, base(), pub(k), beta, pi)
	return err == nil && !d.Equal(null()), !libunlynxshuffle.ShuffleProofVerification(p, pub(k))
}

// a proof that says itself under which key it rerandomized
func C10_ShuffleOwnKey(p libunlynxshuffle.PublishedShufflingProof, key kyber.Point) (pre, ok bool) {
	return !p.H.Equal(key) || !p.G.Equal(base()), !libunlynxshuffle.ShuffleProofVerification(p, key)
}

func C10_KSForged(k, v kyber.Scalar, Q, rb, d kyber.Point, p libunlynxkeyswitch.PublishedKSProof) (pre, ok bool) {
	p.K, p.Q, p.ViB, p.RbNeg = pub(k), Q, pub(v), rb
	p.Ks2 = add(add(mul(k, rb), mul(v, Q)), d)
	return !d.Equal(null()), !libunlynxkeyswitch.KeySwitchProofVerification(p)
}

func C10_AddRmForged(k kyber.Scalar, c libunlynx.CipherText, toAdd bool, dK, dC kyber.Point, p libunlynxaddrm.PublishedAddRmProof) (pre, ok bool) {
	t := addRm(c, k, toAdd)
	p.CtBef, p.CtAft = c, libunlynx.CipherText{K: add(t.K, dK), C: add(t.C, dC)}
	return !dK.Equal(null()) || !dC.Equal(null()), !libunlynxaddrm.AddRmProofVerification(p, pub(k), toAdd)
}

func C10_AddRmForgedK(k kyber.Scalar, c libunlynx.CipherText, toAdd bool, dK kyber.Point, p libunlynxaddrm.PublishedAddRmProof) (pre, ok bool) {
	t := addRm(c, k, toAdd)
	p.CtBef, p.CtAft = c, libunlynx.CipherText{K: add(t.K, dK), C: t.C}
	return !dK.Equal(null()), !libunlynxaddrm.AddRmProofVerification(p, pub(k), toAdd)
}

func C10_TagForgedK(k, s kyber.Scalar, c libunlynx.CipherText, d kyber.Point, q libunlynxdetertag.PublishedDDTCreationProof) (pre, ok bool) {
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	q.CTbef, q.CTaft = c, libunlynx.CipherText{K: add(t.K, d), C: t.C}
	return !d.Equal(null()), !libunlynxdetertag.DeterministicTagCrProofVerification(q, pub(k), pub(s))
}

func C10_TagAddForged(c1, c2, d kyber.Point, p libunlynxdetertag.PublishedDDTAdditionProof) (pre, ok bool) {
	p.C1, p.C2, p.R = c1, c2, add(add(c1, c2), d)
	return !d.Equal(null()), !libunlynxdetertag.DeterministicTagAdditionProofVerification(p)
}

// C10_TagKeyProof: the proof that comes with the name of a group is about its attributes and the server's key, and verifies.
func C10_TagKeyProof(k, s kyber.Scalar, cv libunlynx.CipherVector) (pre, ok bool) {
	_, l, err := libunlynxdetertag.CipherVectorToDeterministicTag(cv, k, s, pub(k), true)
	t := libunlynxdetertag.DeterministicTagSequence(cv, k, s)
	ok = len(l.List) == len(cv) && l.K.Equal(pub(k)) && l.SB.Equal(pub(s))
	for i := range cv {
		ok = ok && l.List[i].CTbef.Equal(&cv[i]) && l.List[i].CTaft.Equal(&t[i])
	}
	return err == nil, ok && libunlynxdetertag.DeterministicTagCrListProofVerification(*l, 1.0)
}
