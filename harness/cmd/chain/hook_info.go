//go:build hook_cryptonote__info

package main

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
)

const haveInfo = true

func infoAt(s cryptonote.Storage, i uint32) *Info {
	v := cryptonote.VerifInfo(s, i)
	if v == nil {
		return nil
	}
	return &Info{v.Index, v.Hash, v.CumulativeDifficulty, v.TotalGeneratedTransactions, v.TotalGeneratedCoins, v.Timestamp, v.Size}
}

func hasTx(s cryptonote.Storage, h crypto.Hash) bool { return cryptonote.VerifHasTx(s, h) }
