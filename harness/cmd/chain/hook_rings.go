//go:build hook_cryptonote__rings

package main

import (
	"errors"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/sim"
)

const haveRings = true

func setRings(w *sim.World) {
	w.M.Rings = w.Ring
	cryptonote.VerifSetRings(w.BC, func(amount uint64, height uint32, indexes []uint32) ([]crypto.PublicKey, error) {
		for i := range indexes {
			if i > 0 && indexes[i] <= indexes[i-1] {
				return nil, errors.New("indexes are not in order")
			}
		}
		keys, ok := w.Ring(amount, indexes)
		if !ok {
			if indexes[0]%2 == 0 {
				return nil, cryptonote.ErrExtractOutputKeyLocked
			}
			return nil, cryptonote.ErrExtractOutputKeyInvalidGlobalIndex
		}
		var r []crypto.PublicKey
		for _, k := range keys {
			r = append(r, k)
		}
		return r, nil
	})
}

func dropRings(w *sim.World) { cryptonote.VerifDropRings(w.BC) }
