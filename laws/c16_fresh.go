package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

func two(i, j, n int) bool {
	return i >= 0 && j >= 0 && i < n && j < n && i != j
}

// C16_EncryptTwice: the same value encrypted twice gives two different ciphertexts.
func C16_EncryptTwice(Q kyber.Point, x int64) bool {
	a, b := libunlynx.EncryptInt(Q, x), libunlynx.EncryptInt(Q, x)
	return !a.K.Equal(b.K)
}

func C16_EncryptGetRTwice(Q kyber.Point, x int64) bool {
	_, a := libunlynx.EncryptIntGetR(Q, x)
	_, b := libunlynx.EncryptIntGetR(Q, x)
	return !a.Equal(b)
}

func C16_EncryptScalarTwice(Q kyber.Point, x kyber.Scalar) bool {
	a, b := libunlynx.EncryptScalar(Q, x), libunlynx.EncryptScalar(Q, x)
	return !a.K.Equal(b.K)
}

// The elements of a vector are encrypted with different randomness.
func C16_EncryptVector(Q kyber.Point, xs []int64, i, j int) (pre, same bool) {
	if !two(i, j, len(xs)) {
		return false, false
	}
	cv := *libunlynx.EncryptIntVector(Q, xs)
	return true, !cv[i].K.Equal(cv[j].K)
}

func C16_EncryptVectorGetRs(Q kyber.Point, xs []int64, i, j int) (pre, same bool) {
	if !two(i, j, len(xs)) {
		return false, false
	}
	cv, rs := libunlynx.EncryptIntVectorGetRs(Q, xs)
	return true, !(*cv)[i].K.Equal((*cv)[j].K) && !rs[i].Equal(rs[j])
}

func C16_EncryptScalarVector(Q kyber.Point, xs []kyber.Scalar, i, j int) (pre, same bool) {
	if !two(i, j, len(xs)) {
		return false, false
	}
	cv := *libunlynx.EncryptScalarVector(Q, xs)
	return true, !cv[i].K.Equal(cv[j].K)
}

func C16_NullVector(Q kyber.Point, n, i, j int) (pre, same bool) {
	if !two(i, j, n) {
		return false, false
	}
	cv := *libunlynx.NullCipherVector(n, Q)
	return true, !cv[i].K.Equal(cv[j].K)
}

func C16_Scalars(n, i, j int) (pre, same bool) {
	if !two(i, j, n) {
		return false, false
	}
	s := libunlynx.RandomScalarSlice(n)
	return true, !s[i].Equal(s[j])
}

func C16_ScalarsTwice(n, i int) (pre, same bool) {
	if i < 0 || i >= n {
		return false, false
	}
	return true, !libunlynx.RandomScalarSlice(n)[i].Equal(libunlynx.RandomScalarSlice(n)[i])
}

func C16_Split(s kyber.Scalar, i, j int) (pre, same bool) {
	if !two(i, j, 3) {
		return false, false
	}
	l := libunlynx.SplitScalar(s, 3)
	return true, !l[i].Equal(l[j])
}

func C16_Keys() bool {
	a, _ := libunlynx.GenKey()
	b, _ := libunlynx.GenKey()
	return !a.Equal(b)
}

func C16_KeySets(n, i, j int) (pre, same bool) {
	if !two(i, j, n) {
		return false, false
	}
	_, _, k := libunlynx.GenKeys(n)
	return true, !k[i].Equal(k[j])
}

// Every ciphertext is switched with randomness of its own.
func C16_KeySwitch(Q kyber.Point, ks []kyber.Point, k kyber.Scalar, i, j int) (pre, same bool) {
	if !two(i, j, len(ks)) {
		return false, false
	}
	cv, _, _, vis := libunlynxkeyswitch.KeySwitchSequence(Q, ks, k)
	return true, !cv[i].K.Equal(cv[j].K) && !vis[i].Equal(vis[j])
}

func C16_KeySwitchTwice(Q, K kyber.Point, k kyber.Scalar) bool {
	a, _, _ := libunlynxkeyswitch.KeySwitch(Q, K, k)
	b, _, _ := libunlynxkeyswitch.KeySwitch(Q, K, k)
	return !a.K.Equal(b.K)
}

// Every element of every line is blinded with randomness of its own.
func C16_ShuffleLines(k kyber.Scalar, line libunlynx.CipherVector, a, b int) (pre, same bool) {
	if a < 0 || b < 0 || a >= len(line) || b >= len(line) {
		return false, false
	}
	_, _, beta := libunlynxshuffle.ShuffleSequence([]libunlynx.CipherVector{line, line, line}, base(), pub(k), nil)
	return true, !beta[0][a].Equal(beta[1][b]) && !beta[1][a].Equal(beta[2][b]) && !beta[0][a].Equal(beta[2][b])
}

func C16_ShuffleElements(k kyber.Scalar, line libunlynx.CipherVector, a, b int) (pre, same bool) {
	if !two(a, b, len(line)) {
		return false, false
	}
	_, _, beta := libunlynxshuffle.ShuffleSequence([]libunlynx.CipherVector{line, line}, base(), pub(k), nil)
	return true, !beta[0][a].Equal(beta[0][b]) && !beta[1][a].Equal(beta[1][b])
}

// The factors prepared in advance differ.
func C16_Precomputed(k kyber.Scalar, lines, size, i, j, a, b int) (pre, same bool) {
	if i < 0 || j < 0 || a < 0 || b < 0 || i >= lines || j >= lines || a >= size || b >= size || (i == j && a == b) {
		return false, false
	}
	p := libunlynxshuffle.CreatePrecomputedRandomize(base(), pub(k), libunlynx.SuiTe.RandomStream(), size, lines)
	return true, !p[i].S[a].Equal(p[j].S[b])
}
