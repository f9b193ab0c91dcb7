//go:build hook_cryptonote__difficulty

package main

import "github.com/r3volut1oner/go-karbo/cryptonote"

const haveDifficulty = true

func difficultyAfter(bc *cryptonote.BlockChain, b *cryptonote.Block) (uint64, error) {
	return cryptonote.VerifDifficulty(bc, b)
}
