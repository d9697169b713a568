package zzlaws

import (
	"crypto/cipher"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

func kOf(cv libunlynx.CipherVector) []kyber.Point {
	out := make([]kyber.Point, len(cv))
	for i := range cv {
		out[i] = cv[i].K
	}
	return out
}

// key switching

func C02_KeySwitchTwo(k1, k2, q kyber.Scalar, c libunlynx.CipherText) (got, want kyber.Point) {
	a, _, _ := libunlynxkeyswitch.KeySwitch(pub(q), c.K, k1)
	b, _, _ := libunlynxkeyswitch.KeySwitch(pub(q), c.K, k2)
	d := libunlynx.CipherText{K: add(a.K, b.K), C: add(c.C, add(a.C, b.C))}
	return open(q, d), sub(open(k1, c), mul(k2, c.K))
}

func C02_KeySwitchShare(Q, K kyber.Point, k kyber.Scalar) bool {
	a, rBNeg, v := libunlynxkeyswitch.KeySwitch(Q, K, k)
	return a.K.Equal(pub(v)) && rBNeg.Equal(sub(null(), K)) && a.C.Equal(add(mul(v, Q), mul(k, rBNeg)))
}

func C02_KeySwitchSequence(k, q kyber.Scalar, cv libunlynx.CipherVector) (got, want []kyber.Point) {
	sw, _, _, _ := libunlynxkeyswitch.KeySwitchSequence(pub(q), kOf(cv), k)
	res := libunlynx.NewCipherVector(len(cv))
	for i := range cv {
		(*res)[i].K = sw[i].K
		(*res)[i].C = add(cv[i].C, sw[i].C)
	}
	return openAll(q, *res), openAll(k, cv)
}

func C02_KeySwitchSequenceWitness(k kyber.Scalar, Q kyber.Point, ks []kyber.Point) (got, want []kyber.Point) {
	sw, ks2, rb, vis := libunlynxkeyswitch.KeySwitchSequence(Q, ks, k)
	for i := range ks {
		got = append(got, sw[i].K, sw[i].C, ks2[i], rb[i])
		want = append(want, pub(vis[i]), ks2[i], add(mul(vis[i], Q), mul(k, rb[i])), sub(null(), ks[i]))
	}
	return
}

// deterministic tags

func C02_Tag(k, s kyber.Scalar, c libunlynx.CipherText) bool {
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	return t.C.Equal(mul(s, open(k, c))) && t.K.Equal(mul(s, c.K))
}

func C02_TagTwoServers(k1, s1, k2, s2 kyber.Scalar, c libunlynx.CipherText) (got, want kyber.Point) {
	t := libunlynxdetertag.DeterministicTag(libunlynxdetertag.DeterministicTag(c, k1, s1), k2, s2)
	return t.C, mul(s2, mul(s1, sub(open(k1, c), mul(k2, c.K))))
}

func C02_TagOrder(k1, s1, k2, s2 kyber.Scalar, c libunlynx.CipherText) (got, want kyber.Point) {
	a := libunlynxdetertag.DeterministicTag(libunlynxdetertag.DeterministicTag(c, k1, s1), k2, s2)
	b := libunlynxdetertag.DeterministicTag(libunlynxdetertag.DeterministicTag(c, k2, s2), k1, s1)
	return a.C, b.C
}

func C02_TagSameValue(k, s, r kyber.Scalar, c libunlynx.CipherText) (got, want kyber.Point) {
	d := libunlynx.CipherText{K: add(c.K, pub(r)), C: add(c.C, mul(r, pub(k)))}
	return libunlynxdetertag.DeterministicTag(c, k, s).C, libunlynxdetertag.DeterministicTag(d, k, s).C
}

func C02_TagSequence(k, s kyber.Scalar, cv libunlynx.CipherVector) (got, want libunlynx.CipherVector) {
	for i := range cv {
		want = append(want, libunlynxdetertag.DeterministicTag(cv[i], k, s))
	}
	return libunlynxdetertag.DeterministicTagSequence(cv, k, s), want
}

// shuffling

func flat(k kyber.Scalar, in []libunlynx.CipherVector) (out []kyber.Point) {
	for i := range in {
		out = append(out, openAll(k, in[i])...)
	}
	return
}

func C02_ShuffleKeepsValues(k kyber.Scalar, in []libunlynx.CipherVector, n int) (pre, ok bool) {
	if n < 1 || len(in) == 0 {
		return false, true
	}
	for i := range in {
		if len(in[i]) != n {
			return false, true
		}
	}
	out, pi, _ := libunlynxshuffle.ShuffleSequence(in, base(), pub(k), nil)
	ok = len(out) == len(in)
	for i := range in {
		for j := 0; j < n; j++ {
			ok = ok && open(k, out[i][j]).Equal(open(k, in[pi[i]][j]))
		}
	}
	return true, ok
}

func C02_ShuffleBeta(g, h kyber.Point, in []libunlynx.CipherVector, n int) (pre, ok bool) {
	if n < 1 || len(in) == 0 {
		return false, true
	}
	for i := range in {
		if len(in[i]) != n {
			return false, true
		}
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, nil)
	ok = true
	for i := range in {
		for j := 0; j < n; j++ {
			b := beta[pi[i]][j]
			ok = ok && out[i][j].K.Equal(add(in[pi[i]][j].K, mul(b, g))) && out[i][j].C.Equal(add(in[pi[i]][j].C, mul(b, h)))
		}
	}
	return true, ok
}

func C02_Precomputed(g, h kyber.Point, rand cipher.Stream, m, n int) (pre, ok bool) {
	if m < 0 || n < 0 {
		return false, true
	}
	ps := libunlynxshuffle.CreatePrecomputedRandomize(g, h, rand, m, n)
	ok = len(ps) == n
	for i := range ps {
		ok = ok && len(ps[i].S) == m && len(ps[i].CipherV) == m
		for j := range ps[i].S {
			ok = ok && ps[i].CipherV[j].K.Equal(mul(ps[i].S[j], g)) && ps[i].CipherV[j].C.Equal(mul(ps[i].S[j], h))
		}
	}
	return true, ok
}

func C02_ShufflePrecomputed(g, h kyber.Point, rand cipher.Stream, in []libunlynx.CipherVector, n, m, lines int) (pre, ok bool) {
	if n < 1 || len(in) == 0 || m < n || lines < 1 {
		return false, true
	}
	for i := range in {
		if len(in[i]) != n {
			return false, true
		}
	}
	ps := libunlynxshuffle.CreatePrecomputedRandomize(g, h, rand, m, lines)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, ps)
	ok = len(out) == len(in) && len(pi) == len(in) && len(beta) == len(in)
	for i := range in {
		for j := 0; j < n; j++ {
			b := beta[pi[i]][j]
			ok = ok && out[i][j].K.Equal(add(in[pi[i]][j].K, mul(b, g))) && out[i][j].C.Equal(add(in[pi[i]][j].C, mul(b, h)))
		}
	}
	return true, ok
}

// C02_TagKey: the name of a group is that of its tags.
func C02_TagKey(k, s kyber.Scalar, cv libunlynx.CipherVector, proofs bool) (pre bool, got, want libunlynx.GroupingKey) {
	var dv libunlynx.DeterministCipherVector
	for i := range cv {
		dv = append(dv, libunlynx.DeterministCipherText{Point: libunlynxdetertag.DeterministicTag(cv[i], k, s).C})
	}
	got, _, err := libunlynxdetertag.CipherVectorToDeterministicTag(cv, k, s, pub(k), proofs)
	return err == nil, got, dv.Key()
}

// C02_PrecomputedAtStart: what a server prepares when it starts blinds under the servers' key, for every element of a line.
func C02_PrecomputedAtStart(s kyber.Scalar, h kyber.Point, n int) (pre, ok bool) {
	lines, err := libunlynxshuffle.PrecomputationWritingForShuffling(false, "pre.gob", "server", s, h, n)
	ok = len(lines) > 0
	for i := range lines {
		ok = ok && len(lines[i].CipherV) >= n && len(lines[i].S) == len(lines[i].CipherV)
		for j := range lines[i].CipherV {
			ok = ok && lines[i].CipherV[j].K.Equal(mul(lines[i].S[j], nil)) && lines[i].CipherV[j].C.Equal(mul(lines[i].S[j], h))
		}
	}
	return err == nil && n >= 0, ok
}
