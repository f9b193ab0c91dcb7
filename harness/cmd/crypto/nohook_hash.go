//go:build !hook_crypto__hash

package main

import "verifharness/mon"

func hookHash(t *mon.T, h [32]byte) {}
