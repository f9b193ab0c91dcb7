//go:build hook_p2p__store

package main

import (
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveStore = true

func put(n *p2p.Node, p *p2p.Peer, white bool) error { return p2p.VerifPut(n, p, white) }
