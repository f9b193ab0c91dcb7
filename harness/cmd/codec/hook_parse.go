//go:build hook_p2p__parse

package main

import "github.com/r3volut1oner/go-karbo/p2p"

const haveParse = true

func parseAny(kind byte, id uint32, b []byte) (interface{}, error) {
	if kind == 'n' {
		return p2p.VerifParseNotification(id, b)
	}
	return p2p.VerifParseCommand(id, b)
}
