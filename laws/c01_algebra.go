// Package zzlaws states, as equations over the API, what the functions of the
// repository must compute. The file is type-checked with the repository (as an
// overlay) and summarised by the value analysis; it is never compiled or run.
//
// A law returns (got, want) or a condition; a first result named pre restricts
// it to the inputs for which it is true.
package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

func base() kyber.Point                             { return libunlynx.SuiTe.Point().Base() }
func mul(s kyber.Scalar, p kyber.Point) kyber.Point { return libunlynx.SuiTe.Point().Mul(s, p) }
func add(a, b kyber.Point) kyber.Point              { return libunlynx.SuiTe.Point().Add(a, b) }
func sub(a, b kyber.Point) kyber.Point              { return libunlynx.SuiTe.Point().Sub(a, b) }
func null() kyber.Point                             { return libunlynx.SuiTe.Point().Null() }
func point(v int64) kyber.Point                     { return mul(libunlynx.SuiTe.Scalar().SetInt64(v), base()) }
func pub(k kyber.Scalar) kyber.Point                { return mul(k, base()) }
func sc(n int64) kyber.Scalar                       { return libunlynx.SuiTe.Scalar().SetInt64(n) }

// open is what a ciphertext hides from everybody but the holder of k.
func open(k kyber.Scalar, c libunlynx.CipherText) kyber.Point { return sub(c.C, mul(k, c.K)) }

func openAll(k kyber.Scalar, cv libunlynx.CipherVector) []kyber.Point {
	out := make([]kyber.Point, len(cv))
	for i := range cv {
		out[i] = open(k, cv[i])
	}
	return out
}

func ints(xs []int64) []kyber.Point {
	out := make([]kyber.Point, len(xs))
	for i := range xs {
		out[i] = pub(sc(xs[i]))
	}
	return out
}

func C01_IntToPoint(n int64) (got, want kyber.Point) { return libunlynx.IntToPoint(n), pub(sc(n)) }

func C01_EncryptInt(k kyber.Scalar, n int64) (got, want kyber.Point) {
	return open(k, *libunlynx.EncryptInt(pub(k), n)), pub(sc(n))
}

func C01_EncryptIntGetR(k kyber.Scalar, n int64) bool {
	c, r := libunlynx.EncryptIntGetR(pub(k), n)
	return open(k, *c).Equal(pub(sc(n))) && c.K.Equal(pub(r))
}

func C01_EncryptScalar(k, s kyber.Scalar) (got, want kyber.Point) {
	return open(k, *libunlynx.EncryptScalar(pub(k), s)), pub(s)
}

func C01_EncryptIntVector(k kyber.Scalar, xs []int64) (got, want []kyber.Point) {
	return openAll(k, *libunlynx.EncryptIntVector(pub(k), xs)), ints(xs)
}

func C01_EncryptIntVectorGetRs(k kyber.Scalar, xs []int64) (got, want []kyber.Point) {
	cv, rs := libunlynx.EncryptIntVectorGetRs(pub(k), xs)
	for i := range rs {
		got = append(got, (*cv)[i].K)
		want = append(want, pub(rs[i]))
	}
	return append(got, openAll(k, *cv)...), append(want, ints(xs)...)
}

func C01_EncryptScalarVector(k kyber.Scalar, xs []kyber.Scalar) (got, want []kyber.Point) {
	for i := range xs {
		want = append(want, pub(xs[i]))
	}
	return openAll(k, *libunlynx.EncryptScalarVector(pub(k), xs)), want
}

func C01_IntToCipherText(k kyber.Scalar, n int64) (got, want kyber.Point) {
	return open(k, libunlynx.IntToCipherText(n)), pub(sc(n))
}

func C01_IntArrayToCipherVector(k kyber.Scalar, xs []int64) (got, want []kyber.Point) {
	return openAll(k, libunlynx.IntArrayToCipherVector(xs)), ints(xs)
}

func C01_PointToCipherText(k kyber.Scalar, p kyber.Point) (got, want kyber.Point) {
	return open(k, libunlynx.PointToCipherText(p)), p
}

func C01_NewCipherText(k kyber.Scalar) (got, want kyber.Point) {
	return open(k, *libunlynx.NewCipherText()), null()
}

func C01_NewCipherVector(k kyber.Scalar, n int) (got, want []kyber.Point) {
	if n < 0 {
		return nil, nil
	}
	for i := 0; i < n; i++ {
		want = append(want, null())
	}
	return openAll(k, *libunlynx.NewCipherVector(n)), want
}

func C01_NullCipherVector(k kyber.Scalar, n int) (got, want []kyber.Point) {
	if n < 0 {
		return nil, nil
	}
	for i := 0; i < n; i++ {
		want = append(want, null())
	}
	return openAll(k, *libunlynx.NullCipherVector(n, pub(k))), want
}

func C01_NewDeterministicCipherVector(n int) (got, want []kyber.Point) {
	if n < 0 {
		return nil, nil
	}
	for _, d := range *libunlynx.NewDeterministicCipherVector(n) {
		got = append(got, d.Point)
	}
	for i := 0; i < n; i++ {
		want = append(want, null())
	}
	return
}

func C01_Add(k kyber.Scalar, a, b libunlynx.CipherText) (got, want kyber.Point) {
	c := libunlynx.NewCipherText()
	c.Add(a, b)
	return open(k, *c), add(open(k, a), open(k, b))
}

func C01_AddInPlace(k kyber.Scalar, a, b libunlynx.CipherText) (got, want kyber.Point) {
	want = add(open(k, a), open(k, b))
	a.Add(a, b)
	return open(k, a), want
}

func C01_Sub(k kyber.Scalar, a, b libunlynx.CipherText) (got, want kyber.Point) {
	c := libunlynx.NewCipherText()
	c.Sub(a, b)
	return open(k, *c), sub(open(k, a), open(k, b))
}

func C01_SubInPlace(k kyber.Scalar, a, b libunlynx.CipherText) (got, want kyber.Point) {
	want = sub(open(k, a), open(k, b))
	b.Sub(a, b)
	return open(k, b), want
}

func C01_MulByScalar(k, s kyber.Scalar, a libunlynx.CipherText) (got, want kyber.Point) {
	c := libunlynx.NewCipherText()
	c.MulCipherTextbyScalar(a, s)
	return open(k, *c), mul(s, open(k, a))
}

func C01_VectorAdd(k kyber.Scalar, a, b libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	c := libunlynx.NewCipherVector(len(a))
	c.Add(a, b)
	x, y := openAll(k, a), openAll(k, b)
	for i := range x {
		want = append(want, add(x[i], y[i]))
	}
	return len(a) == len(b), openAll(k, *c), want
}

func C01_VectorSub(k kyber.Scalar, a, b libunlynx.CipherVector) (pre bool, got, want []kyber.Point) {
	c := libunlynx.NewCipherVector(len(a))
	c.Sub(a, b)
	x, y := openAll(k, a), openAll(k, b)
	for i := range x {
		want = append(want, sub(x[i], y[i]))
	}
	return len(a) == len(b), openAll(k, *c), want
}

func C01_Acum(k kyber.Scalar, a libunlynx.CipherVector) (pre bool, got, want kyber.Point) {
	c := a.Acum()
	want = null()
	for _, x := range openAll(k, a) {
		want = add(want, x)
	}
	return len(a) > 0, open(k, c), want
}

func C01_Equal(a, b libunlynx.CipherText) (got, want bool) {
	return a.Equal(&b), a.K.Equal(b.K) && a.C.Equal(b.C)
}

func C01_EqualSame(a libunlynx.CipherText, r kyber.Point) bool {
	b := libunlynx.CipherText{K: sub(add(a.K, r), r), C: sub(add(a.C, r), r)}
	return a.Equal(&b)
}

func C01_VectorEqualReflexive(a libunlynx.CipherVector) bool {
	b := libunlynx.NewCipherVector(len(a))
	z := libunlynx.NewCipherVector(len(a))
	b.Add(a, *z)
	return b.Equal(&a)
}

func C01_VectorEqualDifference(a libunlynx.CipherVector, i int, r kyber.Point, inK bool) (pre, ok bool) {
	if i < 0 || i >= len(a) {
		return false, true
	}
	b := make(libunlynx.CipherVector, len(a))
	for j := range a {
		b[j] = a[j]
	}
	if inK {
		b[i].K = add(b[i].K, r)
	} else {
		b[i].C = add(b[i].C, r)
	}
	return true, !a.Equal(&b) && !b.Equal(&a)
}

func C01_VectorEqualLength(a libunlynx.CipherVector, x libunlynx.CipherText) bool {
	b := append(libunlynx.CipherVector{}, a...)
	b = append(b, x)
	return !a.Equal(&b) && !b.Equal(&a)
}

func C01_DetEqual(a, b libunlynx.DeterministCipherText) (got, want bool) {
	return a.Equal(&b), a.Point.Equal(b.Point)
}

func C01_DetVectorEqualReflexive(a libunlynx.DeterministCipherVector) bool {
	b := make(libunlynx.DeterministCipherVector, len(a))
	for j := range a {
		b[j] = libunlynx.DeterministCipherText{Point: add(a[j].Point, null())}
	}
	return a.Equal(&b)
}

func C01_DetVectorEqualDifference(a libunlynx.DeterministCipherVector, i int, r kyber.Point) (pre, ok bool) {
	if i < 0 || i >= len(a) {
		return false, true
	}
	b := make(libunlynx.DeterministCipherVector, len(a))
	for j := range a {
		b[j] = a[j]
	}
	b[i].Point = add(b[i].Point, r)
	return true, !a.Equal(&b) && !b.Equal(&a)
}

func C01_DetVectorEqualLength(a libunlynx.DeterministCipherVector, x libunlynx.DeterministCipherText) bool {
	b := append(libunlynx.DeterministCipherVector{}, a...)
	b = append(b, x)
	return !a.Equal(&b) && !b.Equal(&a)
}

func C01_SplitScalar(s kyber.Scalar, n int) (pre, ok bool) {
	if n < 0 {
		return false, true
	}
	parts := libunlynx.SplitScalar(s, n)
	sum := libunlynx.SuiTe.Scalar().Zero()
	for _, p := range parts {
		sum = libunlynx.SuiTe.Scalar().Add(sum, p)
	}
	return true, sum.Equal(s) && len(parts) == n+1
}

func C01_GenKey() (got, want kyber.Point) {
	k, K := libunlynx.GenKey()
	return K, pub(k)
}

func C01_GenKeys(n int) (pre, ok bool) {
	if n < 0 {
		return false, true
	}
	K, ks, Ks := libunlynx.GenKeys(n)
	sum := null()
	ok = len(ks) == n && len(Ks) == n
	for i := range ks {
		ok = ok && Ks[i].Equal(pub(ks[i]))
		sum = add(sum, pub(ks[i]))
	}
	return true, ok && K.Equal(sum)
}

func C01_DecryptCheckZero(k, r kyber.Scalar, n int64) (got, want int64) {
	c := libunlynx.CipherText{K: pub(r), C: add(mul(r, pub(k)), pub(sc(n)))}
	if n != 0 {
		want = 1
	}
	return libunlynx.DecryptCheckZero(k, c), want
}

func C01_DecryptCheckZeroVector(k kyber.Scalar, cv libunlynx.CipherVector) (got, want []int64) {
	for i := range cv {
		w := int64(1)
		if open(k, cv[i]).Equal(null()) {
			w = 0
		}
		want = append(want, w)
	}
	return libunlynx.DecryptCheckZeroVector(k, &cv), want
}

// decryption depends on nothing but the hidden point
func C01_DecryptInt(k, r kyber.Scalar, c libunlynx.CipherText) (got, want int64) {
	d := libunlynx.CipherText{K: add(c.K, pub(r)), C: add(c.C, mul(r, pub(k)))}
	return libunlynx.DecryptInt(k, c), libunlynx.DecryptInt(k, d)
}

func C01_DecryptIntWithNeg(k, r kyber.Scalar, c libunlynx.CipherText) (got, want int64) {
	d := libunlynx.CipherText{K: add(c.K, pub(r)), C: add(c.C, mul(r, pub(k)))}
	return libunlynx.DecryptIntWithNeg(k, c), libunlynx.DecryptIntWithNeg(k, d)
}

func C01_DecryptIntVector(k kyber.Scalar, cv libunlynx.CipherVector) (got, want []int64) {
	for i := range cv {
		want = append(want, libunlynx.DecryptInt(k, cv[i]))
	}
	return libunlynx.DecryptIntVector(k, &cv), want
}

func C01_DecryptIntVectorWithNeg(k kyber.Scalar, cv libunlynx.CipherVector) (got, want []int64) {
	for i := range cv {
		want = append(want, libunlynx.DecryptIntWithNeg(k, cv[i]))
	}
	return libunlynx.DecryptIntVectorWithNeg(k, &cv), want
}

// C01_VectorEqualNone: no vector equals a vector that is not there.
func C01_VectorEqualNone(a libunlynx.CipherVector) bool {
	var none *libunlynx.CipherVector
	return !a.Equal(none) && !none.Equal(&a) && none.Equal(nil)
}

func C01_DetVectorEqualNone(a libunlynx.DeterministCipherVector) bool {
	var none *libunlynx.DeterministCipherVector
	return !a.Equal(none) && !none.Equal(&a) && none.Equal(nil)
}

func C01_EqualNone(a libunlynx.CipherText) bool {
	var none *libunlynx.CipherText
	return !a.Equal(none) && !none.Equal(&a) && none.Equal(nil)
}
