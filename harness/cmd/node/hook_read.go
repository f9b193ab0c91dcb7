//go:build hook_p2p__read

package main

import (
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveRead = true

func readFrame(p *p2p.LevinProtocol) (command uint32, notify, response bool, payload []byte, err error) {
	return p2p.VerifRead(p)
}
