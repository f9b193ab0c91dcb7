//go:build hook_cryptonote__store

package main

import "github.com/r3volut1oner/go-karbo/cryptonote"

const haveStore = true

func wrapStore(s cryptonote.Storage, push func(b *cryptonote.Block) error, get func()) cryptonote.Storage {
	return &cryptonote.VerifStorage{Storage: s, Push: push, Get: get}
}
