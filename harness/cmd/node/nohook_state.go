//go:build !hook_p2p__state

package main

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveState = false

type peerView struct {
	state, version    byte
	remote, last      uint32
	needed, requested []crypto.Hash
}

func view(p *p2p.Peer) (v peerView) { return }

func setState(p *p2p.Peer, s byte) {}
