//go:build !hook_crypto__derive

package main

import "github.com/r3volut1oner/go-karbo/crypto"

const haveDerive = false

func derivePub(d *crypto.KeyDerivation, i uint64, base *crypto.PublicKey) (*crypto.PublicKey, error) {
	panic("no hook")
}

func underivePub(d *crypto.KeyDerivation, i uint64, key *crypto.PublicKey) (*crypto.PublicKey, error) {
	panic("no hook")
}

func deriveSec(d *crypto.KeyDerivation, i uint64, base *crypto.SecretKey) (*crypto.SecretKey, error) {
	panic("no hook")
}
