package libunlynxshuffle

import (
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

// C10_ShuffleSeed: the challenges of the honest statement are of no use for an altered one.
func C10_ShuffleSeed(k kyber.Scalar, a, b, c1, c2 libunlynx.CipherText, d kyber.Point, where int) (pre, ok bool) {
	in := []libunlynx.CipherVector{{a, b}, {c1, c2}}
	s := libunlynx.SuiTe
	h := s.Point().Mul(k, s.Point().Base())
	out, pi, beta := ShuffleSequence(in, s.Point().Base(), h, nil)
	seed, err := statementSeed(h, in, out)
	e, err2 := CipherVectorComputeE(seed, in[0])
	if where == 0 {
		out[0][0].C = s.Point().Add(out[0][0].C, s.Point().Mul(e[1], d))
		out[0][1].C = s.Point().Sub(out[0][1].C, s.Point().Mul(e[0], d))
	} else {
		out[0][0].K = s.Point().Add(out[0][0].K, s.Point().Mul(e[1], d))
		out[0][1].K = s.Point().Sub(out[0][1].K, s.Point().Mul(e[0], d))
	}
	p, err3 := ShuffleProofCreation(in, out, s.Point().Base(), h, beta, pi)
	return err == nil && err2 == nil && err3 == nil && !d.Equal(s.Point().Null()), !ShuffleProofVerification(p, h)
}
