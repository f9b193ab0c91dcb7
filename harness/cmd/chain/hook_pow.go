//go:build hook_cryptonote__pow

package main

import (
	"errors"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/sim"
)

const havePow = true

var errNoWork = errors.New("no work")

func setPow(w *sim.World, f func(b *cryptonote.Block, d uint64) bool) {
	cryptonote.VerifSetPow(w.BC, func(b *cryptonote.Block, d uint64) error {
		if f(b, d) {
			return nil
		}
		return errNoWork
	})
}

func dropPow(w *sim.World) { cryptonote.VerifDropPow(w.BC) }
