package protocolsunlynxutils

import (
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

func zzOpen(k kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	s := libunlynx.SuiTe
	return s.Point().Sub(c.C, s.Point().Mul(k, c.K))
}

func C02_AddServer(k, kNew kyber.Scalar, in []libunlynx.CipherText) (got, want []kyber.Point) {
	sum := libunlynx.SuiTe.Scalar().Add(k, kNew)
	out := changeEncryption(in, kNew, true)
	for i := range in {
		got = append(got, zzOpen(sum, out[i]), out[i].K)
		want = append(want, zzOpen(k, in[i]), in[i].K)
	}
	return
}

func C02_RemoveServer(k, kRm kyber.Scalar, in []libunlynx.CipherText) (got, want []kyber.Point) {
	rest := libunlynx.SuiTe.Scalar().Sub(k, kRm)
	out := changeEncryption(in, kRm, false)
	for i := range in {
		got = append(got, zzOpen(rest, out[i]), out[i].K)
		want = append(want, zzOpen(k, in[i]), in[i].K)
	}
	return
}
