package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// zzTruth says whether everything that was to be proved is so.
var zzTruth bool

func zzmodel_DeterministicTagAdditionProofCreation(c1 kyber.Point, s kyber.Scalar, c2, r kyber.Point) (libunlynxdetertag.PublishedDDTAdditionProof, error) {
	zzTruth = zzTruth && c2.Equal(zzS.Point().Mul(s, nil)) && r.Equal(zzS.Point().Add(c1, c2))
	return libunlynxdetertag.PublishedDDTAdditionProof{C1: c1, C2: c2, R: r}, nil
}

func zzmodel_DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k, s kyber.Scalar) (libunlynxdetertag.PublishedDDTCreationListProof, error) {
	ok := len(vBef) == len(vAft) && K.Equal(zzS.Point().Mul(k, nil))
	for i := range vBef {
		ok = ok && vAft[i].K.Equal(zzS.Point().Mul(s, vBef[i].K)) && vAft[i].C.Equal(zzS.Point().Mul(s, zzOpen(k, vBef[i])))
	}
	zzTruth = zzTruth && ok
	return libunlynxdetertag.PublishedDDTCreationListProof{K: K}, nil
}

// C10_TagStep: what a server proves of a step of tagging is what it did.
func C10_TagStep(cv libunlynx.CipherVector, x, s kyber.Scalar) bool {
	zzTruth = true
	return TaggingDet(&cv, x, s, zzS.Point().Mul(x, nil), true) == nil && zzTruth
}

// C10_TagRun: a server that proves its part of a tagging proves what it did, in both rounds.
func C10_TagRun(n *onet.TreeNodeInstance, next *onet.TreeNode, s kyber.Scalar, in, in2 libunlynx.CipherVector) (pre, ok bool) {
	if n.IsRoot() {
		return false, true
	}
	zznet.Reset()
	zzTruth = true
	p := zzTagging(n, next, s)
	p.Proofs = true
	ok = zzTagTo(p, in)
	ok2 := zzTagTo(p, in2)
	return true, ok && ok2 && p.Dispatch() == nil && zzTruth
}

func zzmodel_ShuffleProofCreation(in, out []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (libunlynxshuffle.PublishedShufflingProof, error) {
	ok := len(in) == len(out) && len(beta) == len(in) && len(pi) == len(in) && g.Equal(zzS.Point().Base())
	for i := range out {
		for j := range out[i] {
			b, c := beta[pi[i]][j], in[pi[i]][j]
			ok = ok && out[i][j].K.Equal(zzS.Point().Add(c.K, zzS.Point().Mul(b, g))) && out[i][j].C.Equal(zzS.Point().Add(c.C, zzS.Point().Mul(b, h)))
		}
	}
	zzTruth = zzTruth && ok
	return libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: out, G: g, H: h}, nil
}

// C10_DDTRun: the same when data is shuffled and tagged at once.
func C10_DDTRun(n *onet.TreeNodeInstance, next *onet.TreeNode, x, s kyber.Scalar, in []libunlynx.CipherVector, w int) (pre, ok bool) {
	if n.IsRoot() || !zzTable(in, w) {
		return false, true
	}
	zznet.Reset()
	zzTruth = true
	p := zzDDT(n, next, s)
	p.Proofs = true
	err := zzDDTTo(p, ShufflingPlusDDTMessage{Data: in, ShuffKey: zzS.Point().Mul(x, nil)})
	return true, err == nil && zzTruth
}
