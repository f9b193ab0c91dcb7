//go:build hook_p2p__loop

package main

import (
	"context"
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveLoop = true

func loop(ctx context.Context, n *p2p.Node, p *p2p.Peer) { p2p.VerifLoop(ctx, n, p) }
