//go:build !hook_cryptonote__rings

package main

import "verifharness/sim"

const haveRings = false

func setRings(*sim.World)  {}
func dropRings(*sim.World) {}
