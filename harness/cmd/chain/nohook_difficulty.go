//go:build !hook_cryptonote__difficulty

package main

import "github.com/r3volut1oner/go-karbo/cryptonote"

const haveDifficulty = false

func difficultyAfter(*cryptonote.BlockChain, *cryptonote.Block) (uint64, error) { return 0, nil }
