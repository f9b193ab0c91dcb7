//go:build !hook_cryptonote__pow

package main

import (
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/sim"
)

const havePow = false

func setPow(*sim.World, func(*cryptonote.Block, uint64) bool) {}
func dropPow(*sim.World)                                      {}
