//go:build hook_p2p__state

package main

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveState = true

type peerView struct {
	state, version    byte
	remote, last      uint32
	needed, requested []crypto.Hash
}

func view(p *p2p.Peer) (v peerView) {
	v.state, v.version, v.remote, v.last, v.needed, v.requested = p2p.VerifPeer(p)
	return
}

func setState(p *p2p.Peer, s byte) { p2p.VerifSetState(p, s) }
