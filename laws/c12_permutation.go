package zzlaws

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

// isPerm tells whether pi holds each of 0..n-1 exactly once.
func isPerm(pi []int, n int) bool {
	ok := len(pi) == n
	for _, x := range pi {
		ok = ok && x >= 0 && x < n
	}
	for i := range pi {
		for j := 0; j < i; j++ {
			ok = ok && pi[i] != pi[j]
		}
	}
	return ok
}

func C12_RandomPermutation(n int) (pre, ok bool) {
	if n < 1 {
		return false, true
	}
	return true, isPerm(libunlynx.RandomPermutation(n), n)
}

func C12_ShufflePermutes(g, h kyber.Point, in []libunlynx.CipherVector, n int) (pre, ok bool) {
	if n < 1 || len(in) == 0 {
		return false, true
	}
	for i := range in {
		if len(in[i]) != n {
			return false, true
		}
	}
	_, pi, _ := libunlynxshuffle.ShuffleSequence(in, g, h, nil)
	return true, isPerm(pi, len(in))
}
