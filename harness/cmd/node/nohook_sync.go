//go:build !hook_p2p__sync

package main

import (
	"context"
	"github.com/r3volut1oner/go-karbo/p2p"
)

const haveSync = false

func syncWith(ctx context.Context, n *p2p.Node, addr string) {}
