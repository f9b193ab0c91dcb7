//go:build hook_p2p__handle

package main

import (
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveHandle = true

func handle(n *p2p.Node, p *p2p.Peer, notify bool, id uint32, payload []byte) error {
	return p2p.VerifHandle(n, p, notify, id, payload)
}
