//go:build hook_crypto__hash

package main

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/mon"
	"verifharness/ref"
)

func hookHash(t *mon.T, h [32]byte) {
	ch := crypto.Hash(h)
	p, err := crypto.VerifHashToPoint(&ch)
	if err != nil {
		t.Failf("hash to point of %x: %v", h, err)
		return
	}
	if w := ref.HashToPoint(h).Bytes(); *p != crypto.EllipticCurvePoint(w) {
		t.Failf("hash to point of %x: got %x want %x", h, *p, w)
	}
	s := crypto.VerifHashToScalar(&ch)
	if w := ref.LE32(ref.ModL(h[:])); s != crypto.EllipticCurveScalar(w) {
		t.Failf("hash to scalar of %x: got %x want %x", h, s, w)
	}
	t.Count("hash to curve compared through the hook", 1)
}
