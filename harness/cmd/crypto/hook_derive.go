//go:build hook_crypto__derive

package main

import "github.com/r3volut1oner/go-karbo/crypto"

const haveDerive = true

func derivePub(d *crypto.KeyDerivation, i uint64, base *crypto.PublicKey) (*crypto.PublicKey, error) {
	return crypto.VerifDerivePublicKey(d, i, base)
}

func underivePub(d *crypto.KeyDerivation, i uint64, key *crypto.PublicKey) (*crypto.PublicKey, error) {
	return crypto.VerifUnderivePublicKey(d, i, key)
}

func deriveSec(d *crypto.KeyDerivation, i uint64, base *crypto.SecretKey) (*crypto.SecretKey, error) {
	b := crypto.PublicKey(*base)
	return crypto.VerifDeriveSecretKey(d, i, &b)
}
