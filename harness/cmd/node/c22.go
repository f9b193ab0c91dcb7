package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/sim"
)

type known struct {
	id   uint64
	addr p2p.NetworkAddress
}

func sorted(k []known) []known {
	sort.Slice(k, func(i, j int) bool { return k[i].id < k[j].id })
	return k
}

func entries(ps []p2p.PeerEntry) (r []known) {
	for _, p := range ps {
		r = append(r, known{p.ID, p.Address})
	}
	return sorted(r)
}

// begun is when the program starts, nobody is seen before.
var begun = sim.Now()

// versions has the network take other versions than it speaks.
func versions(r *rand.Rand, w *config.Network) {
	w.P2PCurrentVersion = byte(r.Intn(256))
	w.P2PMinimumVersion = byte(r.Intn(int(w.P2PCurrentVersion) + 1))
}

// reply is what the node says about itself.
type reply struct {
	height uint32
	top    crypto.Hash
	peers  []p2p.PeerEntry
}

// readReply checks everything in the reply that does not depend on the chain.
func readReply(f frame, cmd uint32, w *config.Network) (y reply, bad string) {
	if f.cmd != cmd || f.ret || f.flags != 2 || f.code != 1 {
		return y, fmt.Sprintf("header of the reply is wrong: %v", f)
	}
	now := sim.Now()
	near := func(v uint64) bool { return v+45 > now && v < now+3 }
	seen := func(ps []p2p.PeerEntry) string {
		for _, p := range ps {
			if p.LastSeen+3 < begun || p.LastSeen > now+3 {
				return fmt.Sprintf("peer %d is last seen at %d, the time is %d and the program runs since %d", p.ID, p.LastSeen, now, begun)
			}
		}
		return ""
	}
	if cmd == msg.CommandHandshake {
		x, ok := decode(f.payload, p2p.HandshakeResponse{})
		if !ok {
			return y, "reply is not readable: " + mon.Hex(f.payload)
		}
		v := x.(p2p.HandshakeResponse)
		if v.NodeData.NetworkID != w.NetworkID {
			return y, fmt.Sprintf("network of the reply is %v", v.NodeData.NetworkID)
		}
		if v.NodeData.Version != w.P2PCurrentVersion {
			return y, fmt.Sprintf("version of the reply is %d", v.NodeData.Version)
		}
		if !near(v.NodeData.LocalTime) {
			return y, fmt.Sprintf("time of the reply is %d at %d", v.NodeData.LocalTime, now)
		}
		return reply{v.PayloadData.CurrentHeight, v.PayloadData.TopBlockHash, v.Peers}, seen(v.Peers)
	}
	x, ok := decode(f.payload, p2p.TimedSyncResponse{})
	if !ok {
		return y, "reply is not readable: " + mon.Hex(f.payload)
	}
	v := x.(p2p.TimedSyncResponse)
	if !near(v.LocalTime) {
		return y, fmt.Sprintf("time of the reply is %d at %d", v.LocalTime, now)
	}
	return reply{v.PayloadData.CurrentHeight, v.PayloadData.TopBlockHash, v.Peers}, seen(v.Peers)
}

// otherNetwork is an id that differs from the right one.
func otherNetwork(r *rand.Rand, w *config.Network) (id [16]byte) {
	id = w.NetworkID
	switch r.Intn(5) {
	case 0:
		id = [16]byte{}
	case 1:
		if id = config.MainNet().NetworkID; id == w.NetworkID {
			id = config.TestNet().NetworkID
		}
	case 2:
		copy(id[:], gen.Bytes(r, 16))
	default:
		id[r.Intn(16)] ^= 1 << uint(r.Intn(8))
	}
	if id == w.NetworkID {
		id[15] ^= 1
	}
	return
}

func c22(c *mon.Ctx) {
	c.Rule("A case is a sequence of commands to the handlers of the node over a connection in memory, or the scripts of some clients of a node over loopback TCP while its chain grows. Replies are read with the reference decoder and compared with the chain, the peers known so far and a model of the peer. Non trivial: commands reach a handler.")
	c.Assume("Peer id zero means that the id is not set, as in the reference implementation.")
	c.Assume("The own peer id and port in replies are not judged; the time that a peer is last seen at must be in the lifetime of the program.")

	if haveHandle {
		c.Par("commands", c.N(700, 8000), func(t *mon.T) {
			r := t.Rng
			lc := longChain(t, r.Intn(3) == 0)
			n := []int{0, 1, 9, 10, 11, 12, 13, 30, 200, 500}[r.Intn(10)]
			end, grows := zoneEnd, true
			var w *sim.World
			if n > 0 && r.Intn(3) == 0 {
				end, grows = 1+r.Intn(n), false
				w = lc.prefixZone(t, n, end)
			} else {
				w = lc.prefix(t, n)
			}
			versions(r, w.Net)
			node := newNode(w, "")
			store := map[uint64]p2p.NetworkAddress{}
			white := map[uint64]bool{}
			for conns := 1 + r.Intn(3); conns > 0; conns-- {
				incoming := r.Intn(8) > 0
				con := &tap{}
				peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), incoming)
				id, st := uint64(0), stBefore
				remote := uint32(0)
				dead := false
				trace := ""
				bad := func(f string, a ...interface{}) {
					t.Failf("chain of %d, after [%s]: %s", n, trace, fmt.Sprintf(f, a...))
					t.Stop()
				}
				for steps := 1 + r.Intn(8); steps > 0 && !dead; steps-- {
					if grows && r.Intn(3) == 0 && n < chainLen { // the chain grows
						e := &lc.list[n]
						x := sim.Clone(e.Block)
						if err := w.BC.AddBlock(x, lc.raw[n]); err != nil {
							bad("block %d is not taken: %v", n+1, err)
						}
						n++
					}
					if haveStore && r.Intn(3) == 0 {
						for k := r.Intn(4); k >= 0; k-- {
							q := p2p.NewPeer(logger().Sugar(), lp(&tap{}), someAddress(r), r.Intn(2) == 0)
							q.ID = gen.U64(r) % 12
							if r.Intn(3) == 0 {
								q.ID = gen.U64(r)
							}
							wh := r.Intn(2) == 0
							err := put(node, q, wh)
							was, in := white[q.ID]
							if q.ID == 0 || in && was == wh {
								if err == nil {
									bad("peer %d is stored again", q.ID)
								}
							} else {
								if err != nil {
									bad("peer %d is not stored: %v", q.ID, err)
								}
								store[q.ID], white[q.ID] = q.PeerEntry().Address, wh
							}
						}
					}
					height := uint32(n + 1)
					// what the other side says about its chain
					h := helloOf(w.Net, r, gen.U32(r), crypto.Hash(gen.B32(r)))
					topKnown := r.Intn(2) == 0
					if topKnown {
						i := r.Intn(n + 1)
						h.top, h.height = lc.hash(i), uint32(i+1)
					} else {
						switch r.Intn(6) {
						case 4:
							h.height = uint32(int64(height) - 9 - int64(r.Intn(4)))
						case 5:
							if int(height) > end {
								h.height = uint32(end + r.Intn(int(height)-end))
							}
						case 0:
							h.height = height + uint32(r.Intn(30))
						case 3:
							h.height = uint32(end - 2 + r.Intn(5))
						case 1:
							h.height = uint32(int64(height) - int64(r.Intn(14)))
						case 2:
							h.height = uint32(r.Intn(zoneEnd + 100))
						}
						if n < chainLen && r.Intn(3) == 0 { // the true next block
							h.top, h.height = lc.hash(n+1), height+1
						}
					}
					behind := int64(height) - int64(h.height)
					deep := !topKnown && behind > 10 && h.height <= uint32(end)
					if !topKnown && behind > 10 && !deep {
						t.Count("peers far behind out of the zone", 1)
					}
					var cmd uint32
					var payload []byte
					var wantErr, wantReply, wantDrop bool
					next, nextRemote, nextID := st, remote, id
					sync := func(initial bool) {
						if st == stBefore && !initial {
							return
						}
						if st == stSynchronizing {
						} else if topKnown {
							next = stNormal // or any other quiet one
						} else if deep {
							wantErr, wantDrop = true, true
							return
						} else {
							next = stSyncRequired
						}
						nextRemote = h.height
					}
					switch op := r.Intn(12); op {
					case 0, 1, 2, 3:
						cmd = msg.CommandHandshake
						if r.Intn(3) == 0 {
							h.version = byte(r.Intn(256))
						}
						if r.Intn(10) == 0 {
							h.id = 0
						}
						foreign := r.Intn(5) == 0
						if foreign {
							h.net = otherNetwork(r, w.Net)
						}
						payload = h.payload()
						trace += fmt.Sprintf(" handshake(foreign %v, id %d, height %d of %d, known %v)", foreign, h.id, h.height, height, topKnown)
						if foreign || !incoming || id != 0 {
							wantErr, wantDrop = true, true
							t.Count("handshakes refused", 1)
							break
						}
						sync(true)
						if !wantErr {
							nextID = h.id
							wantReply = true
						}
					case 4, 5, 6, 7:
						cmd = msg.CommandTimedSync
						payload = timedSync(h.height, h.top)
						trace += fmt.Sprintf(" sync(height %d of %d, known %v)", h.height, height, topKnown)
						sync(false)
						wantReply = !wantErr
					case 8: // damaged
						cmd = msg.CommandHandshake
						payload = h.payload()
						if r.Intn(2) == 0 {
							cmd, payload = msg.CommandTimedSync, timedSync(h.height, h.top)
						}
						payload = payload[:r.Intn(len(payload))]
						trace += " damaged"
						wantErr = true
					case 9: // unknown
						cmd = []uint32{0, 1000, 1004, 1005, 1006, 2007, gen.U32(r)}[r.Intn(7)]
						if cmd >= 1001 && cmd <= 1003 {
							cmd = 1
						}
						payload = h.payload()
						trace += " unknown"
					case 10:
						if !haveState {
							continue
						}
						st = stSynchronizing
						setState(peer, st)
						trace += " synchronizing"
						continue
					case 11: // request of the chain
						cmd = msg.NoticeChainRequest
						var hs []crypto.Hash
						for k := r.Intn(5); k > 0; k-- {
							switch r.Intn(4) {
							case 0:
								hs = append(hs, lc.hash(n))
							case 1: // the genesis, but not as the last one
								hs = append(hs, lc.hash(0), crypto.Hash(gen.B32(r)))
							case 2:
								hs = append(hs, lc.hash(1+r.Intn(n+1)))
							default:
								hs = append(hs, crypto.Hash(gen.B32(r)))
							}
						}
						good := r.Intn(2) == 0
						if len(hs) > 0 && r.Intn(3) == 0 {
							hs[0] = lc.hash(n)
						}
						if good {
							hs = append(hs, lc.hash(0))
						}
						good = len(hs) > 0 && hs[len(hs)-1] == lc.hash(0)
						payload = requestChain(hs)
						trace += fmt.Sprintf(" request chain(%d hashes, right genesis %v)", len(hs), good)
						wantErr, wantDrop = !good, !good
					}
					err := handle(node, peer, cmd >= 2000 && cmd < 2011, cmd, payload)
					out := con.taken()
					t.Count("commands", 1)
					unknown := cmd != msg.CommandHandshake && cmd != msg.CommandTimedSync && cmd != msg.NoticeChainRequest
					if !unknown && (err != nil) != wantErr {
						bad("error must be %v, got %v", wantErr, err)
					}
					fs, e := parseFrames(out)
					if e != nil {
						bad("broken reply: %v", e)
					}
					switch {
					case wantReply:
						if len(fs) != 1 {
							bad("%d packets are sent, want one", len(fs))
						}
						y, s := readReply(fs[0], cmd, w.Net)
						if s != "" {
							bad("%s", s)
						}
						if y.height != height || y.top != lc.hash(n) {
							bad("reply tells height %d, top %v, want %d, %v", y.height, y.top, height, lc.hash(n))
						}
						var want []known
						for id, a := range store {
							want = append(want, known{id, a})
						}
						want = sorted(want)
						if got := entries(y.peers); fmt.Sprint(got) != fmt.Sprint(want) {
							bad("reply tells peers %v, want %v", got, want)
						}
						t.Count("replies", 1)
						t.Count("peers in replies", int64(len(want)))
						t.Distinct("reply", fs[0].payload)
					case cmd == msg.NoticeChainRequest && !wantErr: // the answer is not judged
					case len(fs) > 0:
						bad("command %d is answered: %v", cmd, fs[0])
					}
					if wantErr && wantDrop {
						dead = true
						t.Count("peers dropped", 1)
						if peer.ID != 0 && peer.ID != id && peer.ID != h.id {
							bad("id is %d", peer.ID)
						}
						if (id != 0 || !incoming || h.net != w.Net.NetworkID) && peer.ID != id {
							bad("id of the refused peer is %d, want %d", peer.ID, id)
						}
					} else {
						st, remote, id = next, nextRemote, nextID
						if peer.ID != id {
							bad("id is %d, want %d", peer.ID, id)
						}
					}
					if haveState {
						v := view(peer)
						quiet := v.state == stIdle || v.state == stNormal || v.state == stPoolSyncRequired
						switch {
						case dead:
							if v.state != stShutdown {
								bad("peer is not dropped, its state is %d", v.state)
							}
						case st == stNormal && !quiet || st != stNormal && v.state != st:
							bad("state is %d, want %d", v.state, st)
						case v.remote != remote:
							bad("remote height is %d, want %d", v.remote, remote)
						}
						if st == stNormal && !dead {
							st = stNormal
						}
					}
				}
			}
			t.Distinct("sequence", fmt.Sprint(n, len(store)))
		})
		c.Require("commands", 500)
		c.Require("peers far behind out of the zone", 10)
		c.Require("replies", 200)
		c.Require("handshakes refused", 50)
		if haveStore {
			c.Require("peers in replies", 100)
		}
	}

	if haveHandle && haveStore {
		sizes := []int{0, 1, 50, 63, 64, 65, 100, 128, 200, 249, 250, 251, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 2500, 5001}
		c.Par("many peers", c.N(len(sizes), 5*len(sizes)), func(t *mon.T) {
			r := t.Rng
			lc := longChain(t, false)
			n := r.Intn(20)
			w := lc.prefix(t, n)
			node := newNode(w, "")
			var want []known
			whites := r.Intn(3)
			for k := 0; k < sizes[t.I%len(sizes)]; k++ {
				q := p2p.NewPeer(logger().Sugar(), lp(&tap{}), someAddress(r), r.Intn(2) == 0)
				q.ID = uint64(r.Int63())<<16 | uint64(k)
				if q.ID == 0 {
					q.ID = 5
				}
				if err := put(node, q, whites == 0 || whites == 1 && r.Intn(2) == 0); err != nil {
					t.Failf("peer %d is not stored: %v", k, err)
					return
				}
				want = append(want, known{q.ID, q.PeerEntry().Address})
			}
			want = sorted(want)
			con := &tap{}
			peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), true)
			h := helloOf(w.Net, r, uint32(n+1), lc.hash(n))
			for _, f := range []frame{request(1001, h.payload()), request(1002, timedSync(h.height, h.top))} {
				if err := handle(node, peer, false, f.cmd, f.payload); err != nil {
					t.Failf("command %d: %v", f.cmd, err)
					return
				}
				fs, err := parseFrames(con.taken())
				if err != nil || len(fs) != 1 {
					t.Failf("command %d: %d replies, %v", f.cmd, len(fs), err)
					return
				}
				y, bad := readReply(fs[0], f.cmd, w.Net)
				if bad != "" {
					t.Failf("%s", bad)
					return
				}
				if got := entries(y.peers); fmt.Sprint(got) != fmt.Sprint(want) {
					t.Failf("%d peers are known, reply to the command %d tells %d of them", len(want), f.cmd, len(got))
					return
				}
				t.Count("peers in replies of nodes with many", int64(len(want)))
			}
			t.Distinct("many peers", len(want), whites)
		})
		c.Require("peers in replies of nodes with many", 5000)
	}

	// The exported handler.
	c.Par("handshakes", c.N(300, 6000), func(t *mon.T) {
		r := t.Rng
		lc := longChain(t, r.Intn(3) == 0)
		n := r.Intn(40)
		w := lc.prefix(t, n)
		versions(r, w.Net)
		node := newNode(w, "")
		incoming := r.Intn(4) > 0
		con := &tap{}
		peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), incoming)
		id := uint64(0)
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := r.Intn(n + 1)
			nid := w.Net.NetworkID
			foreign := r.Intn(3) == 0
			if foreign {
				nid = otherNetwork(r, w.Net)
			}
			req := p2p.HandshakeRequest{NodeData: p2p.BasicNodeData{NetworkID: nid, Version: byte(r.Intn(256)), PeerID: gen.U64(r) | 1, LocalTime: gen.U64(r), MyPort: gen.U32(r)},
				PayloadData: p2p.SyncData{CurrentHeight: uint32(i + 1), TopBlockHash: lc.hash(i)}}
			err := node.HandleHandshake(peer, req)
			ok := !foreign && incoming && id == 0
			if (err == nil) != ok {
				t.Failf("foreign %v, incoming %v, had id %d: error is %v", foreign, incoming, id, err)
				return
			}
			if ok {
				id = req.NodeData.PeerID
			}
			if peer.ID != id {
				t.Failf("id is %d, want %d", peer.ID, id)
			}
			t.Count("handshakes handled", 1)
			t.Distinct("handshake", foreign, incoming, id, n)
		}
	})
	c.Require("handshakes handled", 200)

	if haveSync && haveHandle {
		c.ParL("servers", c.N(32, 320), 16, 120*time.Second, func(t *mon.T) { outgoing22(t) })
		c.Require("servers accepted", 8)
		c.Require("servers refused", 5)
	}

	c.ParL("moving", c.N(8, 96), 2, 120*time.Second, func(t *mon.T) { moving22(t) })
	c.Require("tops told by a growing chain", 5000)
	c.Require("tops told right around a change", 200)

	c.ParL("clients", c.N(4, 48), 8, 120*time.Second, func(t *mon.T) { clients22(t) })
	c.Require("clients served", 20)
	c.Require("clients dropped", 5)
	c.Require("peers of gone clients in replies", 5)

	c.SeqL("crowd", c.N(1, 6), 240*time.Second, func(t *mon.T) { crowd22(t) })
	c.Require("peers of the crowd served", 400)
	c.Require("peers of the crowd in the last reply", 400)
}

// crowd22 has hundreds of peers at once, again and again. All of them are served and known after it.
func crowd22(t *mon.T) {
	r := t.Rng
	lc := longChain(t, false)
	n := r.Intn(100)
	w := lc.prefix(t, n)
	s := start(t, w)
	defer s.stop(t)
	ids := map[uint64]bool{}
	ask := func(x *client, q frame) (y reply, bad string) {
		if err := x.send(q); err != nil {
			return y, err.Error()
		}
		f, err := x.answer(q.cmd, 40*time.Second)
		if err != nil {
			return y, err.Error()
		}
		if y, bad = readReply(f, q.cmd, w.Net); bad == "" && (y.height != uint32(n+1) || y.top != lc.hash(n)) {
			bad = fmt.Sprintf("reply tells height %d and top %v, want %d and %v", y.height, y.top, n+1, lc.hash(n))
		}
		return
	}
	for wave := 0; wave < 3; wave++ {
		var wg, all sync.WaitGroup
		size := 230 + r.Intn(60)
		all.Add(size)
		for k := 0; k < size; k++ {
			r := rand.New(rand.NewSource(r.Int63()))
			h := helloOf(w.Net, r, uint32(n+1), lc.hash(n))
			h.id = uint64(wave+1)<<32 | uint64(k)
			ids[h.id] = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				one := sync.OnceFunc(all.Done)
				defer one()
				nap(r, 1000)
				con, err := net.DialTimeout("tcp4", s.addr, 40*time.Second)
				if err != nil {
					t.Failf("one of %d peers is not connected: %v", size, err)
					return
				}
				x := &client{con, r}
				defer x.Close()
				if _, bad := ask(x, request(msg.CommandHandshake, h.payload())); bad != "" {
					t.Failf("handshake of one of %d peers, %d were there before: %s", size, len(ids), bad)
					return
				}
				one()
				all.Wait() // all of them are connected
				if k%8 == 0 {
					if _, bad := ask(x, request(msg.CommandTimedSync, timedSync(h.height, h.top))); bad != "" {
						t.Failf("timed sync of one of %d peers: %s", size, bad)
						return
					}
				}
				t.Count("peers of the crowd served", 1)
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
		time.Sleep(time.Second)
	}
	have := map[uint64]bool{}
	if !until(30*time.Second, func() bool { // the node sees that they are gone
		x := dial(t, s, r)
		defer x.Close()
		h := helloOf(w.Net, r, uint32(n+1), lc.hash(n))
		h.id = uint64(r.Int63()) | 1<<62
		y, bad := ask(x, request(msg.CommandHandshake, h.payload()))
		if bad != "" {
			t.Failf("peer after the crowd: %s", bad)
			return true
		}
		have = map[uint64]bool{}
		for _, p := range y.peers {
			have[p.ID] = true
		}
		for id := range ids {
			if !have[id] {
				return false
			}
		}
		return true
	}) {
		t.Failf("%d peers were connected, a reply tells %d", len(ids), len(have))
		return
	}
	t.Count("peers of the crowd in the last reply", int64(len(ids)))
	t.Distinct("crowd", n, len(ids))
}

// moving22 watches what a node tells about its chain while the chain grows all the time.
func moving22(t *mon.T) {
	r := t.Rng
	lc := longChain(t, t.I%2 == 1)
	n := r.Intn(300)
	w := lc.prefix(t, n)
	node := newNode(w, "")
	begun, ended := int64(n), int64(n) // the last block that the chain is about to take, and that it has taken
	done := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 5; g++ {
		g := g
		rr := rand.New(rand.NewSource(r.Int63()))
		con := &tap{}
		peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(rr), true)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					t.Failf("panic: %v", p)
				}
			}()
			for {
				select {
				case <-done:
					return
				default:
				}
				from := atomic.LoadInt64(&ended)
				var d p2p.SyncData
				what := ""
				switch k := g % 3; {
				case k == 0:
					what, d = "handshake request", p2p.NewHandshakeRequest(w.BC).PayloadData
				case k == 1 || !haveHandle:
					what, d = "handshake response", p2p.NewHandshakeResponse(w.BC, nil).PayloadData
				default:
					what = "timed sync"
					err := handle(node, peer, false, msg.CommandTimedSync, timedSync(1, lc.hash(0)))
					fs, e := parseFrames(con.taken())
					if err != nil || e != nil || len(fs) != 1 {
						t.Failf("timed sync: error %v, %d replies, %v", err, len(fs), e)
						return
					}
					y, bad := readReply(fs[0], msg.CommandTimedSync, w.Net)
					if bad != "" {
						t.Failf("timed sync: %s", bad)
						return
					}
					d = p2p.SyncData{CurrentHeight: y.height, TopBlockHash: y.top}
				}
				to := atomic.LoadInt64(&begun)
				i := int64(d.CurrentHeight) - 1
				if i < from || i > to || d.TopBlockHash != lc.hash(int(i)) {
					t.Failf("%s tells height %d and top %v, the top was between block %d and block %d, block %d is %v", what, d.CurrentHeight, d.TopBlockHash, from, to, i, lc.hash(int(mon.Clamp(i, 0, chainLen))))
					return
				}
				t.Count("tops told by a growing chain", 1)
				if from != to {
					t.Count("tops told right around a change", 1)
				}
				if rr.Intn(4) == 0 {
					time.Sleep(time.Duration(rr.Intn(200)) * time.Microsecond)
				}
			}
		}()
	}
	for i := n; i < chainLen && !t.Failed(); i++ {
		atomic.StoreInt64(&begun, int64(i+1))
		if err := w.BC.AddBlock(sim.Clone(lc.list[i].Block), lc.raw[i]); err != nil {
			t.Failf("block %d is not taken: %v", i+1, err)
			break
		}
		atomic.StoreInt64(&ended, int64(i+1))
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	close(done)
	wg.Wait()
	t.Distinct("moving", n)
}

// clients22 runs a node with many clients.
func clients22(t *mon.T) {
	r := t.Rng
	lc := longChain(t, t.I%3 == 2)
	n := 5 + r.Intn(300)
	w := lc.prefix(t, n)
	versions(r, w.Net)
	s := start(t, w)
	defer s.stop(t)

	var top int64 = int64(n)
	grow := make(chan bool)
	grown := make(chan bool)
	go func() { // the chain grows
		defer close(grown)
		for i := n; i < chainLen; i++ {
			select {
			case <-grow:
				return
			case <-time.After(50 * time.Millisecond):
			}
			if err := w.BC.AddBlock(sim.Clone(lc.list[i].Block), lc.raw[i]); err != nil {
				t.Failf("block %d is not taken: %v", i+1, err)
				return
			}
			atomic.StoreInt64(&top, int64(i+1))
		}
	}()
	defer func() { close(grow); <-grown }()

	check := func(f frame, cmd uint32, from int64, what string) *reply {
		to := atomic.LoadInt64(&top) + 1
		y, bad := readReply(f, cmd, w.Net)
		if bad != "" {
			t.Failf("%s: %s", what, bad)
			return nil
		}
		i := int64(y.height) - 1
		if i < from || i > to || i > chainLen || y.top != lc.hash(int(i)) {
			t.Failf("%s: reply tells height %d, top %v, the top was between %d and %d", what, y.height, y.top, from, to)
			return nil
		}
		t.Count("replies over TCP", 1)
		t.Distinct("reply", f.payload)
		return &y
	}
	ask := func(x *client, q frame, what string) *reply {
		from := atomic.LoadInt64(&top)
		if err := x.send(q); err != nil {
			t.Failf("%s: %v", what, err)
			return nil
		}
		f, err := x.answer(q.cmd, 20*time.Second)
		if err != nil {
			t.Failf("%s: no reply: %v", what, err)
			return nil
		}
		return check(f, q.cmd, from, what)
	}
	refused := func(x *client, what string) {
		b, ok := x.dropped(20 * time.Second)
		if !ok {
			t.Failf("%s: connection stays", what)
			return
		}
		fs, _ := parseFrames(b)
		for _, f := range fs {
			if f.cmd == msg.CommandHandshake || f.cmd == msg.CommandTimedSync {
				t.Failf("%s: it is answered: %v", what, f)
			}
		}
		t.Count("clients dropped", 1)
	}
	someTop := func(r *rand.Rand) (uint32, crypto.Hash) {
		i := int(atomic.LoadInt64(&top)) - r.Intn(4)
		return uint32(i + 1), lc.hash(i)
	}

	var mu sync.Mutex
	gone := map[uint64]bool{}
	ports := map[uint64][2]uint32{}
	var wg sync.WaitGroup
	for k := 0; k < 14; k++ {
		k := k
		r := rand.New(rand.NewSource(r.Int63()))
		x := dial(t, s, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer x.Close()
			height, hash := someTop(r)
			h := helloOf(w.Net, r, height, hash)
			hs := request(msg.CommandHandshake, h.payload())
			switch k % 7 {
			case 0, 1: // well behaved
				if ask(x, hs, "handshake") == nil {
					return
				}
				for i := 0; i < 2; i++ {
					height, hash := someTop(r)
					if ask(x, request(msg.CommandTimedSync, timedSync(height, hash)), "timed sync") == nil {
						return
					}
				}
				mu.Lock()
				gone[h.id] = true
				ports[h.id] = [2]uint32{uint32(x.LocalAddr().(*net.TCPAddr).Port), h.port}
				mu.Unlock()
				t.Count("clients served", 1)
			case 2: // other network
				h.net = otherNetwork(r, w.Net)
				if err := x.send(request(msg.CommandHandshake, h.payload())); err != nil {
					t.Failf("send: %v", err)
					return
				}
				refused(x, "handshake from another network")
			case 3: // repeated handshake
				if ask(x, hs, "handshake") == nil {
					return
				}
				if r.Intn(2) == 0 {
					h.id++
				}
				if err := x.send(request(msg.CommandHandshake, h.payload())); err != nil {
					t.Failf("send: %v", err)
					return
				}
				refused(x, "repeated handshake")
			case 4: // timed sync before the handshake
				if ask(x, request(msg.CommandTimedSync, timedSync(chainLen+5, crypto.Hash{7})), "early timed sync") == nil {
					return
				}
				if ask(x, hs, "handshake after timed sync") == nil {
					return
				}
				t.Count("clients served", 1)
			case 5: // all at once
				from := atomic.LoadInt64(&top)
				if err := x.send(hs, request(msg.CommandTimedSync, timedSync(height, hash)), request(msg.CommandTimedSync, timedSync(height, hash))); err != nil {
					t.Failf("send: %v", err)
					return
				}
				for i := 0; i < 3; i++ {
					cmd := uint32(msg.CommandTimedSync)
					if i == 0 {
						cmd = msg.CommandHandshake
					}
					f, err := recv(x, 20*time.Second)
					if err != nil {
						t.Failf("command %d of a batch: no reply: %v", i, err)
						return
					}
					if check(f, cmd, from, "command of a batch") == nil {
						return
					}
				}
				t.Count("clients served", 1)
			case 6: // damaged and unknown commands change nothing
				p := h.payload()
				if err := x.send(request(msg.CommandHandshake, p[:len(p)/2]), request(1005, nil), notice(2008, []byte{1})); err != nil {
					t.Failf("send: %v", err)
					return
				}
				if ask(x, hs, "handshake after damaged ones") == nil {
					return
				}
				t.Count("clients served", 1)
			}
		}()
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	time.Sleep(3 * time.Second) // the node sees that they are gone
	x := dial(t, s, r)
	defer x.Close()
	height, hash := someTop(r)
	y := ask(x, request(msg.CommandHandshake, helloOf(w.Net, r, height, hash).payload()), "handshake of the last one")
	if y == nil {
		return
	}
	have := map[uint64]p2p.NetworkAddress{}
	for _, p := range y.peers {
		if _, ok := have[p.ID]; ok {
			t.Failf("peer %d is told twice", p.ID)
		}
		have[p.ID] = p.Address
	}
	for id := range gone {
		a, ok := have[id]
		if !ok {
			t.Failf("peer %d that was connected is not known", id)
			continue
		}
		if ip := ipBytes(a); !bytes.Equal(ip[:], []byte{127, 0, 0, 1}) || a.Port != ports[id][0] && a.Port != ports[id][1] {
			t.Failf("peer %d is known at %v:%d, it was at 127.0.0.1, ports %v", id, ip, a.Port, ports[id])
		}
		t.Count("peers of gone clients in replies", 1)
	}
}

// outgoing22 is a node that connects to a server: what it asks, whom it accepts and whom it remembers.
func outgoing22(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	n := r.Intn(300)
	w := lc.prefix(t, n)
	versions(r, w.Net)
	node := newNode(w, "")
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		t.Failf("no loopback: %v", err)
		return
	}
	defer l.Close()
	_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ended := make(chan bool)
	go func() { syncWith(ctx, node, l.Addr().String()); close(ended) }()
	a, err := l.Accept()
	if err != nil {
		t.Failf("no connection: %v", err)
		return
	}
	con := &client{a, r}
	defer con.Close()
	f, err := recv(con, 20*time.Second)
	if err != nil || f.cmd != msg.CommandHandshake || !f.ret || f.flags != 1 {
		t.Failf("no handshake request: %v, %v", f, err)
		return
	}
	x, ok := decode(f.payload, p2p.HandshakeRequest{})
	if !ok {
		t.Failf("handshake request is not readable: %s", mon.Hex(f.payload))
		return
	}
	q := x.(p2p.HandshakeRequest)
	if now := sim.Now(); q.NodeData.NetworkID != w.Net.NetworkID || q.NodeData.Version != w.Net.P2PCurrentVersion || q.NodeData.LocalTime+45 < now || q.NodeData.LocalTime > now+3 {
		t.Failf("handshake request has %+v", q.NodeData)
	}
	if q.PayloadData.CurrentHeight != uint32(n+1) || q.PayloadData.TopBlockHash != lc.hash(n) {
		t.Failf("handshake request tells height %d, top %v, want %d, %v", q.PayloadData.CurrentHeight, q.PayloadData.TopBlockHash, n+1, lc.hash(n))
	}
	h := helloOf(w.Net, r, uint32(1+r.Intn(n+1)), crypto.Hash{})
	h.top = lc.hash(int(h.height) - 1)
	kind := t.I % 4
	switch {
	case kind == 1:
		h.net = otherNetwork(r, w.Net)
	case kind == 2 && w.Net.P2PMinimumVersion > 0:
		h.version = byte(r.Intn(int(w.Net.P2PMinimumVersion)))
	case kind == 3: // a version that is not the own one but is enough
		h.version = w.Net.P2PMinimumVersion + byte(r.Intn(256-int(w.Net.P2PMinimumVersion)))
	}
	accept := kind == 0 || kind == 3 || kind == 2 && w.Net.P2PMinimumVersion == 0
	if err := con.send(response(msg.CommandHandshake, welcome(h, nil))); err != nil {
		t.Failf("answer is not sent: %v", err)
		return
	}
	knows := func() (a p2p.NetworkAddress, ok bool) {
		c := &tap{}
		p := p2p.NewPeer(logger().Sugar(), lp(c), someAddress(r), true)
		if err := handle(node, p, false, msg.CommandTimedSync, timedSync(1, lc.hash(0))); err != nil {
			t.Failf("timed sync: %v", err)
			t.Stop()
		}
		fs, err := parseFrames(c.taken())
		if err != nil || len(fs) != 1 {
			t.Failf("timed sync: %d replies, %v", len(fs), err)
			t.Stop()
		}
		y, bad := readReply(fs[0], msg.CommandTimedSync, w.Net)
		if bad != "" {
			t.Failf("%s", bad)
			t.Stop()
		}
		for _, e := range y.peers {
			if e.ID == h.id {
				return e.Address, true
			}
		}
		return a, len(y.peers) > 0
	}
	t.Distinct("outgoing", n, kind, h.version)
	if !accept {
		if _, ok := con.dropped(20 * time.Second); !ok {
			t.Failf("server of the network %v and the version %d stays connected", h.net, h.version)
			return
		}
		<-ended
		if _, ok := knows(); ok {
			t.Failf("refused server is a known peer")
		}
		t.Count("servers refused", 1)
		return
	}
	is := func(what string) {
		var a p2p.NetworkAddress
		ok := false
		for i := 0; i < 400 && !ok; i++ {
			if a, ok = knows(); !ok {
				time.Sleep(20 * time.Millisecond)
			}
		}
		if ip, port := ipBytes(a), l.Addr().(*net.TCPAddr).Port; !ok || !bytes.Equal(ip[:], []byte{127, 0, 0, 1}) || int(a.Port) != port && a.Port != h.port {
			t.Failf("%s: known %v, at %v:%d, want 127.0.0.1:%d", what, ok, ip, a.Port, port)
		}
	}
	is("accepted server")
	switch r.Intn(3) {
	case 0: // a handshake of the other side
		if err := con.send(request(msg.CommandHandshake, h.payload())); err != nil {
			t.Failf("send: %v", err)
			return
		}
		b, ok := con.dropped(20 * time.Second)
		if !ok {
			t.Failf("handshake on an outgoing connection: it stays")
			return
		}
		if fs, _ := parseFrames(b); len(fs) > 0 {
			t.Failf("handshake on an outgoing connection is answered: %v", fs[0])
		}
		t.Count("handshakes on outgoing connections refused", 1)
	case 1: // timed sync
		if err := con.send(request(msg.CommandTimedSync, timedSync(h.height, h.top))); err != nil {
			t.Failf("send: %v", err)
			return
		}
		f, err := con.answer(msg.CommandTimedSync, 20*time.Second)
		if err != nil {
			t.Failf("timed sync of the server: %v", err)
			return
		}
		y, bad := readReply(f, msg.CommandTimedSync, w.Net)
		if bad != "" || y.height != uint32(n+1) || y.top != lc.hash(n) || len(y.peers) != 1 || y.peers[0].ID != h.id {
			t.Failf("timed sync of the server: %s, reply %+v", bad, y)
		}
		t.Count("timed syncs on outgoing connections", 1)
	case 2: // another server with the same id
		l2, err := net.Listen("tcp4", "127.0.0.1:0")
		if err != nil {
			t.Failf("no loopback: %v", err)
			return
		}
		defer l2.Close()
		_ = l2.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
		over := make(chan bool)
		go func() { syncWith(ctx, node, l2.Addr().String()); close(over) }()
		b, err := l2.Accept()
		if err != nil {
			t.Failf("no connection: %v", err)
			return
		}
		con2 := &client{b, r}
		defer con2.Close()
		if f, err := recv(con2, 20*time.Second); err != nil || f.cmd != msg.CommandHandshake {
			t.Failf("no handshake request of the other connection: %v", err)
			return
		}
		if err := con2.send(response(msg.CommandHandshake, welcome(h, nil))); err != nil {
			t.Failf("answer is not sent: %v", err)
			return
		}
		if _, ok := con2.dropped(20 * time.Second); !ok {
			t.Failf("server with the id of a connected one stays connected")
			return
		}
		<-over
		t.Count("servers with the id of another refused", 1)
		is("server whose id is told by another")
	}
	_ = con.Close()
	select {
	case <-ended:
	case <-time.After(20 * time.Second):
		t.Failf("server left but the node does not notice")
		return
	}
	is("server that left")
	t.Count("servers accepted", 1)
}
