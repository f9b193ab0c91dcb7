//go:build !hook_cryptonote__info

package main

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
)

const haveInfo = false

func infoAt(cryptonote.Storage, uint32) *Info    { return nil }
func hasTx(cryptonote.Storage, crypto.Hash) bool { return false }
