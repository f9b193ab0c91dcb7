package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"go.uber.org/zap"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/sim"
)

const batchLimit = 128

// block of a remote chain.
type rblock struct {
	hash crypto.Hash
	b    []byte
	raw  [][]byte
}

func (c *chain) rblocks() []rblock {
	r := []rblock{{hash: c.w.M.Genesis.Hash, b: cn.Block(c.w.M.Genesis.Block)}}
	for i := range c.list {
		r = append(r, rblock{c.list[i].Hash, cn.Block(c.list[i].Block), c.raw[i]})
	}
	return r
}

// remote is the other node, it watches what is asked from it.
type remote struct {
	r      *rand.Rand
	blocks []rblock // with the genesis
	at     map[crypto.Hash]int
	total  int // height it tells
	limit  int // hashes in one answer
	growth int // blocks that come while it is asked

	honest  bool
	asked   map[int]int // how many times the block is asked for
	order   []int
	largest int
	chains  int
	objs    int
	sparse  func(hs []crypto.Hash) string // judges the request of the chain
	bad     string

	watch func() // is called when the peer or the node writes to the log
}

func newRemote(r *rand.Rand, blocks []rblock, total int) *remote {
	x := &remote{r: r, blocks: blocks, total: total, limit: 1000, at: map[crypto.Hash]int{}, asked: map[int]int{}, honest: true}
	switch r.Intn(4) {
	case 0:
		x.limit = 2 + r.Intn(300)
	case 1:
		x.limit = batchLimit + r.Intn(3)
	}
	for i := range blocks {
		x.at[blocks[i].hash] = i
	}
	return x
}

func (x *remote) fail(f string, a ...interface{}) {
	if x.bad == "" {
		x.bad = fmt.Sprintf(f, a...)
	}
}

func (x *remote) log() *zap.SugaredLogger {
	if x.watch != nil {
		return watching(x.watch).Sugar()
	}
	return logger().Sugar()
}

func (x *remote) grow() {
	if x.growth > 0 && x.r.Intn(3) == 0 {
		k := 1 + x.r.Intn(x.growth)
		x.total = min(len(x.blocks), x.total+k)
		x.growth -= k
	}
}

// parse tells what is asked by the packet.
func (x *remote) parse(f frame) (ids []crypto.Hash, kind byte) {
	if f.flags&2 != 0 {
		return nil, 0
	}
	if f.ret {
		x.fail("notification with the return flag: %v", f)
	}
	switch f.cmd {
	case msg.NoticeChainRequest:
		v, ok := decode(f.payload, p2p.NotificationRequestChain{})
		if !ok {
			x.fail("unreadable request of the chain")
			return nil, 0
		}
		ids = v.(p2p.NotificationRequestChain).Blocks
		x.chains++
		if x.sparse != nil {
			if s := x.sparse(ids); s != "" {
				x.fail("request of the chain: %s", s)
			}
		}
		return ids, 'c'
	case msg.NoticeGetObjects:
		v, ok := decode(f.payload, p2p.NotificationRequestGetObjects{})
		if !ok {
			x.fail("unreadable request of blocks")
			return nil, 0
		}
		q := v.(p2p.NotificationRequestGetObjects)
		x.objs++
		if len(q.Transactions) > 0 {
			x.fail("%d transactions are asked", len(q.Transactions))
		}
		if len(q.Blocks) > batchLimit {
			x.fail("%d blocks are asked at once", len(q.Blocks))
		}
		if len(q.Blocks) == 0 {
			x.fail("no blocks are asked")
		}
		if len(q.Blocks) > x.largest {
			x.largest = len(q.Blocks)
		}
		for _, h := range q.Blocks {
			i, ok := x.at[h]
			if !ok {
				if x.honest {
					x.fail("unknown block %v is asked", h)
				}
				continue
			}
			x.asked[i]++
			x.order = append(x.order, i)
		}
		return q.Blocks, 'b'
	}
	x.fail("unexpected packet: %v", f)
	return nil, 0
}

// entry answers the request of the chain.
func (x *remote) entry(ids []crypto.Hash) (start int, hs []crypto.Hash) {
	start = -1
	for _, h := range ids {
		if i, ok := x.at[h]; ok && i < x.total {
			start = i
			break
		}
	}
	if start < 0 {
		x.fail("request of the chain has no block of it, not even the genesis")
		start = 0
	}
	for i := start; i < x.total && len(hs) < x.limit; i++ {
		hs = append(hs, x.blocks[i].hash)
	}
	return
}

// pick are the asked blocks.
func (x *remote) pick(ids []crypto.Hash) (r []rblock) {
	for _, h := range ids {
		if i, ok := x.at[h]; ok {
			r = append(r, x.blocks[i])
		}
	}
	return
}

func pack(height int, bs []rblock) []byte {
	var b [][]byte
	var raw [][][]byte
	for _, x := range bs {
		b = append(b, x.b)
		raw = append(raw, x.raw)
	}
	return objects(uint32(height), b, raw)
}

// answer is the honest answer to the packet.
func (x *remote) answer(f frame) (frame, bool) {
	ids, kind := x.parse(f)
	switch kind {
	case 'c':
		x.grow()
		start, hs := x.entry(ids)
		return notice(msg.NoticeChainEntry, chainEntry(uint32(start), uint32(x.total), hs)), true
	case 'b':
		x.grow()
		return notice(msg.NoticeObjects, pack(x.total, x.pick(ids))), true
	}
	return frame{}, false
}

// exact checks that every block from the index on is asked once and in order.
func (x *remote) exact(from int) string {
	next := from
	for _, i := range x.order {
		if i != next {
			return fmt.Sprintf("block %d is asked when %d is the next one", i, next)
		}
		next++
	}
	if next != x.total {
		return fmt.Sprintf("blocks from %d to %d are not asked", next, x.total-1)
	}
	return ""
}

// sparseOf judges a request of the chain against the present chain of the node.
func sparseOf(w *sim.World, blocks []rblock) func(hs []crypto.Hash) string {
	return func(hs []crypto.Hash) string {
		top := int(w.BC.Height()) - 1
		want := []crypto.Hash{blocks[top].hash}
		for i := 1; i < top; i *= 2 {
			want = append(want, blocks[top-i].hash)
		}
		if top > 0 {
			want = append(want, blocks[0].hash)
		}
		if fmt.Sprint(want) != fmt.Sprint(hs) {
			return fmt.Sprintf("%d hashes, want %d of the chain with the top %d", len(hs), len(want), top)
		}
		return ""
	}
}

// prefixOf tells the length of the node's chain, which must be a part of the blocks.
func prefixOf(w *sim.World, blocks []rblock) (top int, bad string) {
	top = int(w.BC.Height()) - 1
	if top < 0 || top >= len(blocks) {
		return top, fmt.Sprintf("height is %d, there are only %d blocks", top+1, len(blocks))
	}
	for i := 0; i <= top; i++ {
		h, err := w.Store.HashAtIndex(uint32(i))
		if err != nil || h == nil || *h != blocks[i].hash {
			return top, fmt.Sprintf("block %d of the chain is not the one of the peer", i)
		}
	}
	if b := w.BC.TopBlock(); *b.Hash() != blocks[top].hash {
		return top, "top block is wrong"
	}
	if top+1 < len(blocks) {
		if w.BC.HaveBlock(&blocks[top+1].hash) {
			return top, "chain has a block above its top"
		}
	}
	return top, ""
}

// session is a peer whose packets go straight to the handlers.
type session struct {
	t    *mon.T
	node *p2p.Node
	w    *sim.World
	con  *tap
	peer *p2p.Peer
	x    *remote
}

func newSession(t *mon.T, node *p2p.Node, w *sim.World, x *remote) *session {
	con := &tap{}
	return &session{t, node, w, con, p2p.NewPeer(x.log(), lp(con), someAddress(x.r), true), x}
}

func (s *session) top() (uint32, crypto.Hash) {
	return uint32(s.x.total), s.x.blocks[s.x.total-1].hash
}

// begin makes the handshake and starts the synchronization as the loop of the connection does.
func (s *session) begin() error {
	h, top := s.top()
	if err := handle(s.node, s.peer, false, msg.CommandHandshake, helloOf(s.w.Net, s.x.r, h, top).payload()); err != nil {
		return fmt.Errorf("handshake: %w", err)
	}
	return s.wake()
}

// again is the timed sync.
func (s *session) again() error {
	h, top := s.top()
	if err := handle(s.node, s.peer, false, msg.CommandTimedSync, timedSync(h, top)); err != nil {
		return fmt.Errorf("timed sync: %w", err)
	}
	return s.wake()
}

func (s *session) wake() error {
	if view(s.peer).state == stSyncRequired {
		setState(s.peer, stSynchronizing)
		return s.node.NotifyRequestChain(s.peer)
	}
	return nil
}

func (s *session) dead() bool { return view(s.peer).state == stShutdown }

// asked are the packets of the node that wait for an answer.
func (s *session) asked() (r []frame) {
	fs, err := parseFrames(s.con.taken())
	if err != nil {
		s.x.fail("broken packets: %v", err)
	}
	for _, f := range fs {
		if f.flags&2 == 0 {
			r = append(r, f)
		}
	}
	return
}

// run answers honestly until the node asks no more.
func (s *session) run(pause func()) error {
	for steps := 0; ; steps++ {
		fs := s.asked()
		if len(fs) == 0 {
			return nil
		}
		if len(fs) > 1 {
			s.x.fail("%d packets at once", len(fs))
		}
		if steps > 4000 {
			return fmt.Errorf("synchronization does not end")
		}
		for _, f := range fs {
			a, ok := s.x.answer(f)
			if !ok {
				return fmt.Errorf("unexpected packet %v", f)
			}
			if pause != nil {
				pause()
			}
			if s.x.r.Intn(8) == 0 && !s.dead() { // a timed sync in the middle, nothing more may be asked because of it
				if err := s.again(); err != nil {
					return err
				}
				s.t.Count("timed syncs in the middle", 1)
			}
			if err := handle(s.node, s.peer, true, a.cmd, a.payload); err != nil {
				return err
			}
		}
	}
}

// converge runs honest peer to the end and checks everything about it.
func (s *session) converge(what string) bool { return s.follow(what, s.begin) }

func (s *session) follow(what string, begin func() error) bool {
	t := s.t
	from := int(s.w.BC.Height())
	s.x.sparse = sparseOf(s.w, s.x.blocks)
	s.x.order, s.x.objs, s.x.chains = nil, 0, 0
	err := begin()
	if err == nil {
		err = s.run(nil)
	}
	if err != nil {
		t.Failf("%s: chain of %d, peer with %d: %v", what, from, s.x.total, err)
		return false
	}
	if s.x.bad != "" {
		t.Failf("%s: chain of %d, peer with %d: %s", what, from, s.x.total, s.x.bad)
		return false
	}
	top, bad := prefixOf(s.w, s.x.blocks)
	if bad == "" && top != s.x.total-1 {
		bad = fmt.Sprintf("the node stops at %d", top+1)
	}
	if bad == "" && s.x.total > from {
		bad = s.x.exact(from)
	}
	if bad == "" && s.x.total <= from && s.x.chains+s.x.objs > 0 {
		bad = fmt.Sprintf("%d requests though no block is missing", s.x.chains+s.x.objs)
	}
	if v := view(s.peer); bad == "" && v.state != stNormal && s.x.total > from {
		bad = fmt.Sprintf("state of the peer is %d", v.state)
	}
	if v := view(s.peer); bad == "" && (len(v.needed) > 0 || len(v.requested) > 0) {
		bad = fmt.Sprintf("%d blocks are needed, %d requested still", len(v.needed), len(v.requested))
	}
	if bad != "" {
		t.Failf("%s: chain of %d, peer with %d, limit %d: %s", what, from, s.x.total, s.x.limit, bad)
		return false
	}
	t.Count("blocks synchronized", int64(s.x.total-from))
	t.Count("synchronizations", 1)
	t.Count("requests of blocks", int64(s.x.objs))
	t.Count("requests of chains", int64(s.x.chains))
	if s.x.largest == batchLimit {
		t.Count("full batches", 1)
	}
	t.Distinct("sync", from, s.x.total, s.x.limit, s.x.chains)
	return true
}

// invalid makes a chain that has a wrong block at the index i and blocks that follow it.
func invalid(w *sim.World, lc *chain, blocks []rblock, i int, r *rand.Rand) []rblock {
	e := lc.list[i-1]
	b := sim.Clone(e.Block)
	raw := lc.raw[i-1]
	switch r.Intn(6) {
	case 0:
		b.BaseTransaction.Outputs[0].Amount += uint64(1 + r.Intn(1000))
	case 1:
		b.Timestamp = sim.Now() + 100000
	case 2:
		b.MajorVersion = 4
	case 3:
		b.BaseTransaction.UnlockHeight++
	case 4:
		b.BaseTransaction.Inputs[0] = cryptonote.InputCoinbase{BlockIndex: uint32(i + 1)}
	case 5: // a transaction that is not right
		x := w.NewTx(sim.TxOpt{Plain: true, Inputs: 1})
		x.Outputs = nil
		raw = append([][]byte{}, raw...)
		raw = append(raw, cn.Tx(x))
		h := crypto.Hash(keccak(cn.Tx(x)))
		b.TransactionsHashes = append(append([]crypto.Hash{}, b.TransactionsHashes...), h)
	}
	out := append([]rblock{}, blocks[:i]...)
	out = append(out, rblock{idOf(b), cn.Block(b), raw})
	prev := idOf(b)
	for k := i + 1; k < len(blocks) && k < i+200; k++ {
		y := sim.Clone(lc.list[k-1].Block)
		y.PreviousBlockHash = prev
		prev = idOf(y)
		out = append(out, rblock{prev, cn.Block(y), lc.raw[k-1]})
	}
	return out
}

// twin changes the nonce of the block and keeps the first and the last byte of its hash.
func (x *rblock) twin() bool {
	b, rest, ok := cn.ParseBlock(x.b)
	if !ok || len(rest) > 0 {
		return false
	}
	for n := 0; n < 400000; n++ {
		b.Nonce++
		if h := idOf(b); h[0] == x.hash[0] && h[31] == x.hash[31] {
			*x = rblock{x.hash, cn.Block(b), x.raw}
			return true
		}
	}
	return false
}

// spoil changes the blocks of an answer in some way. next are blocks of the chain that were not asked for.
func spoil(r *rand.Rand, bs []rblock, next []rblock) (out []rblock, what string) {
	out = append([]rblock{}, bs...)
	i := r.Intn(len(out))
	withTx := -1
	for k := range out {
		if len(out[k].raw) > 0 && (withTx < 0 || r.Intn(3) == 0) {
			withTx = k
		}
	}
	for {
		switch r.Intn(16) {
		case 15:
			if out[len(out)-1].twin() {
				return out, "block with another nonce and a hash that looks alike"
			}
		case 0:
			return nil, "no blocks"
		case 1:
			if len(next) > 0 {
				return append(out, next[0]), "block above the batch"
			}
		case 2:
			if len(out) > 1 {
				if r.Intn(2) == 0 {
					i = len(out) - 1
				}
				return append(out[:i], out[i+1:]...), "missing block"
			}
		case 3:
			return append(out, out[i]), "repeated block"
		case 4:
			if len(out) > 1 {
				j := (i + 1) % len(out)
				out[j] = out[i]
				return out, "block in place of another"
			}
		case 5:
			if len(out) > 1 {
				j := r.Intn(len(out) - 1)
				k := j + 1 + r.Intn(len(out)-1-j)
				out[j], out[k] = out[k], out[j]
				return out, "reordered blocks"
			}
		case 6:
			out[i].b = append(append([]byte{}, out[i].b...), byte(r.Intn(256)))
			return out, "bytes after the block"
		case 7:
			out[i].b = out[i].b[:r.Intn(len(out[i].b))]
			return out, "cut block"
		case 8:
			b := append([]byte{}, out[i].b...)
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			out[i].b = b
			return out, "damaged block"
		case 9:
			if withTx >= 0 {
				out[withTx].raw = out[withTx].raw[1:]
				return out, "missing transaction"
			}
		case 10:
			out[i].raw = append(append([][]byte{}, out[i].raw...), gen.Bytes(r, 1+r.Intn(100)))
			return out, "extra transaction"
		case 11:
			if withTx >= 0 {
				raw := append([][]byte{}, out[withTx].raw...)
				k := r.Intn(len(raw))
				x := append([]byte{}, raw[k]...)
				x[r.Intn(len(x))] ^= byte(1 << uint(r.Intn(8)))
				raw[k] = x
				out[withTx].raw = raw
				return out, "damaged transaction"
			}
		case 12:
			if withTx >= 0 && len(out[withTx].raw) > 1 {
				raw := append([][]byte{}, out[withTx].raw...)
				raw[0], raw[len(raw)-1] = raw[len(raw)-1], raw[0]
				out[withTx].raw = raw
				return out, "reordered transactions"
			}
		case 13:
			if len(next) > 1 {
				k := 1 + r.Intn(len(next)-1)
				out[i] = next[k]
				return out, "another block of the chain"
			}
		case 14:
			if withTx >= 0 {
				raw := append([][]byte{}, out[withTx].raw...)
				raw[r.Intn(len(raw))] = nil
				out[withTx].raw = raw
				return out, "empty transaction"
			}
		}
	}
}

func c23(c *mon.Ctx) {
	c.Rule("A case is a node with the first blocks of a chain of 701 and peers that have more of it, honest or not, whose packets go to the handlers directly or over loopback TCP. The requests of the node, its chain after every answer and the fate of the peer are judged. Non trivial: at least one block is missing.")
	c.Assume("Blocks are behind a checkpoint, so proof of work and signatures of transactions are not judged here.")
	c.Assume("Peers have chains that extend the chain of the node: the node does not follow forks.")

	direct := haveHandle && haveState
	if direct {
		c.Par("honest", c.N(60, 1200), func(t *mon.T) {
			r := t.Rng
			lc := longChain(t, r.Intn(3) == 0)
			bs := lc.rblocks()
			n := []int{0, 1, 2, r.Intn(chainLen), r.Intn(chainLen), chainLen - r.Intn(300)}[r.Intn(6)]
			miss := []int{0, 1, 2, 127, 128, 129, 255, 256, 257, 385, r.Intn(400), r.Intn(chainLen)}[r.Intn(12)]
			if n+miss > chainLen {
				n = chainLen - miss
			}
			w := lc.prefix(t, n)
			x := newRemote(r, bs, n+miss+1)
			if r.Intn(3) == 0 {
				x.growth = r.Intn(chainLen - n - miss + 1)
				if x.growth > 300 {
					x.growth = 300
				}
			}
			s := newSession(t, newNode(w, ""), w, x)
			if !s.converge("honest peer") {
				return
			}
			for k := r.Intn(4); k > 0; k-- { // the chain of the peer grows or not, it tells
				if r.Intn(4) > 0 {
					x.total = min(len(bs), x.total+[]int{1, 1, 2, r.Intn(200)}[r.Intn(4)])
				}
				if !s.follow("peer that goes on", s.again) {
					return
				}
				t.Count("timed syncs of peers that go on", 1)
			}
		})
		c.Require("synchronizations", 40)
		c.Require("blocks synchronized", 2000)
		c.Require("full batches", 5)
		c.Require("timed syncs of peers that go on", 20)
		c.Require("timed syncs in the middle", 20)

		c.Par("high", c.N(51, 510), func(t *mon.T) { high23(t) })
		c.Require("high chains synchronized", 30)

		c.Par("overtaken", c.N(60, 1200), func(t *mon.T) { overtaken23(t) })

		c.Par("spoiled", c.N(220, 4000), func(t *mon.T) { spoiled23(t) })
		c.Require("spoiled answers", 100)

		c.Par("twice", c.N(70, 800), func(t *mon.T) { twice23(t) })
		c.Require("chains sent twice", 25)

		c.ParL("together", c.N(24, 400), 4, 120*time.Second, func(t *mon.T) { together23(t) })
		c.Require("synchronizations of many peers", 15)
	}

	if daemonPath() != "" {
		c.SeqL("daemon", c.N(1, 12), 240*time.Second, func(t *mon.T) { daemonSync(t) })
	}
	c.ParL("tcp", c.N(6, 60), 12, 200*time.Second, func(t *mon.T) { tcp23(t) })
	c.Require("synchronizations over TCP", 3)
	c.Require("bad peers dropped over TCP", 2)
}

// twice23 is a peer with right answers only, but it sends a chain once more while its blocks are asked. It may be
// dropped or not; no block may be asked twice.
func twice23(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	bs := lc.rblocks()
	n := r.Intn(chainLen - 20)
	total := n + 3 + r.Intn(min(600, chainLen-n-2))
	w := lc.prefix(t, n)
	node := newNode(w, "")
	x := newRemote(r, bs, total)
	s := newSession(t, node, w, x)
	left := 1 + r.Intn(2)
	where := r.Intn(4)
	var last []crypto.Hash
	start := 0
	err := s.begin()
	var todo []frame
	for steps := 0; err == nil && !s.dead() && steps < 4000; steps++ {
		todo = append(todo, s.asked()...)
		if len(todo) == 0 {
			break
		}
		f := todo[0]
		todo = todo[1:]
		ids, kind := x.parse(f)
		switch kind {
		case 'c':
			start, last = x.entry(ids)
			err = handle(node, s.peer, true, msg.NoticeChainEntry, chainEntry(uint32(start), uint32(total), last))
		case 'b':
			if where--; where < 0 && left > 0 && len(last) > 1 {
				left--
				hs, st := last, start
				if r.Intn(2) == 0 { // from some other block that is here
					st = r.Intn(min(int(w.BC.Height()), total-1))
					hs = nil
					for i := st; i < min(total, st+x.limit); i++ {
						hs = append(hs, bs[i].hash)
					}
				}
				t.Count("chains sent twice", 1)
				err = handle(node, s.peer, true, msg.NoticeChainEntry, chainEntry(uint32(st), uint32(total), hs))
				if err != nil {
					break
				}
			}
			err = handle(node, s.peer, true, msg.NoticeObjects, pack(total, x.pick(ids)))
		default:
			t.Failf("unexpected packet %v", f)
			return
		}
	}
	for _, f := range append(todo, s.asked()...) {
		x.parse(f)
	}
	for i, k := range x.asked {
		if k > 1 {
			t.Failf("chain of %d, peer with %d, limit %d sends the chain again: block %d is asked %d times", n+1, total, x.limit, i, k)
			return
		}
	}
	top, bad := prefixOf(w, bs)
	if bad == "" && top < n {
		bad = "blocks are lost"
	}
	if bad == "" && !s.dead() && top != total-1 {
		bad = fmt.Sprintf("peer stays, but the node stops at %d", top+1)
	}
	if bad != "" {
		t.Failf("chain of %d, peer with %d, limit %d sends the chain again: %s", n+1, total, x.limit, bad)
		return
	}
	t.Distinct("twice", n, total, x.limit)
	h := newRemote(r, bs, max(top+1, min(len(bs), top+1+r.Intn(200))))
	newSession(t, node, w, h).converge("after a chain sent twice")
}

// spoiled23 is a peer that sends one wrong answer.
func spoiled23(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	bs := lc.rblocks()
	n := r.Intn(chainLen - 20)
	total := n + 2 + r.Intn(min(400, chainLen-n))
	w := lc.prefix(t, n)
	node := newNode(w, "")
	x := newRemote(r, bs, total)
	s := newSession(t, node, w, x)
	where := r.Intn(4) // answers before the wrong one
	mode := r.Intn(10)
	what := ""
	allowed := total - 1 // highest index that may enter
	mustDrop := true

	if mode == 0 { // the chain of the peer is wrong
		at := n + 1 + r.Intn(total-1-n)
		x.blocks = invalid(w, lc, bs[:total], at, r)
		x.total = len(x.blocks)
		x.at = map[crypto.Hash]int{}
		for i := range x.blocks {
			x.at[x.blocks[i].hash] = i
		}
		what = fmt.Sprintf("wrong block at %d", at)
		allowed = at - 1
		x.honest = false
		if err := s.begin(); err != nil {
			t.Failf("%s: %v", what, err)
			return
		}
		if err := s.run(nil); err == nil {
			t.Failf("chain of %d, %s: there is no error", n+1, what)
			return
		}
	} else {
		done := false
		err := s.begin()
		for steps := 0; err == nil && !done; steps++ {
			fs := s.asked()
			if len(fs) == 0 {
				break
			}
			before := int(w.BC.Height()) - 1
			ids, kind := x.parse(fs[0])
			var a frame
			switch kind {
			case 'c':
				start, hs := x.entry(ids)
				a = notice(msg.NoticeChainEntry, chainEntry(uint32(start), uint32(x.total), hs))
				if mode >= 7 && (where <= 0 || r.Intn(2) == 0) {
					done = true
					allowed = before
					switch r.Intn(6) {
					case 0:
						what = "no hashes"
						a.payload = chainEntry(uint32(start), uint32(x.total), nil)
					case 1:
						what = "unknown first hash"
						hs[0] = crypto.Hash(gen.B32(r))
						a.payload = chainEntry(uint32(start), uint32(x.total), hs)
					case 2:
						what = "hashes above the height"
						// below the last one: the same number is let pass, as by the reference node
						a.payload = chainEntry(uint32(start), uint32(start+r.Intn(max(1, len(hs)-1))), hs)
						if start+len(hs) == 1 {
							a.payload = chainEntry(5, 2, hs)
						}
						if len(hs) == 1 { // it takes more than one hash
							a.payload = chainEntry(uint32(x.total), 1, hs)
						}
					case 3:
						what = "start above the height"
						a.payload = chainEntry(uint32(x.total+1+r.Intn(1000)), uint32(x.total), hs)
					case 4:
						what = "first hash is missing here"
						if before+1 < len(bs) {
							hs = hs[:0]
							for i := before + 1; i < total && i < before+20; i++ {
								hs = append(hs, bs[i].hash)
							}
							if len(hs) > 0 {
								a.payload = chainEntry(uint32(before+1), uint32(x.total), hs)
								break
							}
						}
						a.payload = chainEntry(uint32(start), uint32(x.total), nil)
					case 5:
						what = "nothing but the first hash is true"
						mustDrop = false
						for i := range hs {
							if i > 0 {
								hs[i] = crypto.Hash(gen.B32(r))
							}
						}
						if len(hs) < 2 {
							hs = append(hs, crypto.Hash(gen.B32(r)))
						}
						a.payload = chainEntry(uint32(start), uint32(start+len(hs)), hs)
					}
				}
			case 'b':
				got := x.pick(ids)
				h := x.total
				if mode < 7 && (where <= 0 || r.Intn(2) == 0) {
					done = true
					allowed = before + len(got)
					if mode == 1 {
						what = "height below the announced one"
						v := view(s.peer).last
						if v == 0 {
							done = false
							break
						}
						h = r.Intn(int(v))
						if r.Intn(2) == 0 {
							h = int(v) - 1
						}
						allowed = before
					} else {
						last := x.at[ids[len(ids)-1]]
						got, what = spoil(r, got, bs[min(last+1, len(bs)):])
					}
				}
				a = notice(msg.NoticeObjects, pack(h, got))
			}
			where--
			err = handle(node, s.peer, true, a.cmd, a.payload)
			if done {
				if err == nil && mustDrop {
					t.Failf("chain of %d, peer with %d: %s: there is no error", n+1, total, what)
					return
				}
				err = nil
			}
		}
		if err != nil {
			t.Failf("chain of %d, peer with %d: %v", n+1, total, err)
			return
		}
		if !done { // unrequested blocks when nothing is asked
			what = "blocks that were not asked"
			top := int(w.BC.Height()) - 1
			allowed = top
			next := bs[min(top+1, len(bs)-1):min(top+1+1+r.Intn(3), len(bs))]
			if len(next) == 0 {
				next = bs[len(bs)-1:]
			}
			if err := handle(node, s.peer, true, msg.NoticeObjects, pack(top+2, next)); err == nil {
				t.Failf("chain of %d: %s: there is no error", n+1, what)
				return
			}
		}
	}
	if x.bad != "" && x.honest {
		t.Failf("chain of %d, peer with %d: %s", n+1, total, x.bad)
		return
	}
	top, bad := prefixOf(w, bs)
	if bad == "" && top > allowed {
		bad = fmt.Sprintf("blocks up to %d are in the chain, no more than %d may be", top, allowed)
	}
	if bad == "" && mustDrop && !s.dead() {
		bad = fmt.Sprintf("peer is not dropped, its state is %d", view(s.peer).state)
	}
	if bad != "" {
		t.Failf("chain of %d, peer with %d: %s: %s", n+1, total, what, bad)
		return
	}
	t.Count("spoiled answers", 1)
	t.Count("spoiled: "+what[:min(len(what), 14)], 1)
	t.Distinct("spoiled", what, n, total)
	// an honest peer brings the rest
	h := newRemote(r, bs, max(top+1, min(len(bs), top+1+r.Intn(200))))
	newSession(t, node, w, h).converge("after " + what)
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// together23 has many peers at once.
func together23(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	bs := lc.rblocks()
	n := r.Intn(300)
	w := lc.prefix(t, n)
	node := newNode(w, "")
	best := 0
	var honest []*session
	var hostile []*session
	for i := 2 + r.Intn(4); i > 0; i-- {
		x := newRemote(rand.New(rand.NewSource(r.Int63())), bs, n+2+r.Intn(300))
		if x.total > best {
			best = x.total
		}
		honest = append(honest, newSession(t, node, w, x))
	}
	for i := r.Intn(3); i > 0; i-- {
		x := newRemote(rand.New(rand.NewSource(r.Int63())), bs, n+2+r.Intn(300))
		hostile = append(hostile, newSession(t, node, w, x))
	}
	for round := 0; ; round++ {
		var wg sync.WaitGroup
		for _, s := range honest {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				var err error
				if round == 0 {
					err = s.begin()
				} else {
					err = s.again()
				}
				if err == nil {
					err = s.run(yields(s.x.r))
				}
				if err != nil && err != cryptonote.ErrAddBlockAlreadyExists {
					s.x.fail("%v", err)
				}
				if s.dead() {
					s.x.fail("honest peer is dropped: %v", err)
				}
				if err != nil {
					t.Count("races for a block", 1)
				}
			}()
		}
		if round == 0 {
			for _, s := range hostile {
				s := s
				wg.Add(1)
				go func() {
					defer wg.Done()
					if s.begin() != nil {
						return
					}
					for k := 0; k < 6; k++ {
						for _, f := range s.asked() {
							ids, kind := s.x.parse(f)
							switch kind {
							case 'c':
								start, hs := s.x.entry(ids)
								_ = handle(node, s.peer, true, msg.NoticeChainEntry, chainEntry(uint32(start), uint32(s.x.total), hs))
							case 'b':
								got, _ := spoil(s.x.r, s.x.pick(ids), nil)
								_ = handle(node, s.peer, true, msg.NoticeObjects, pack(s.x.total, got))
							}
						}
					}
				}()
			}
		}
		wg.Wait()
		for _, s := range honest {
			if s.x.bad != "" {
				t.Failf("chain of %d, %d honest peers up to %d, round %d: %s", n+1, len(honest), best, round, s.x.bad)
				return
			}
		}
		top, bad := prefixOf(w, bs)
		if bad != "" {
			t.Failf("chain of %d, %d honest peers: %s", n+1, len(honest), bad)
			return
		}
		if top >= best-1 {
			t.Count("rounds", int64(round+1))
			break
		}
		if round > 10 {
			t.Failf("chain of %d, %d honest peers up to %d: the node stays at %d after %d rounds of timed sync", n+1, len(honest), best, top+1, round)
			return
		}
	}
	t.Count("synchronizations of many peers", 1)
	t.Distinct("together", n, best, len(honest), len(hostile))
}

// tcp23 is a node that synchronizes over TCP.
func tcp23(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	bs := lc.rblocks()
	n := r.Intn(250)
	w := lc.prefix(t, n)
	s := start(t, w)
	defer s.stop(t)
	// bad peers come first, one after another or at once; what one of them brings
	// can overtake another that comes at the same time, and that one is then no
	// longer known to be bad: only a bad list of hashes is told from a good one
	// whatever the chain has become
	var wg sync.WaitGroup
	together := r.Intn(2) == 0
	for i := 0; i < 3; i++ {
		top, bad := prefixOf(w, bs)
		if bad != "" {
			t.Failf("after bad peers: %s", bad)
			return
		}
		x := newRemote(rand.New(rand.NewSource(r.Int63())), bs, min(len(bs), top+3+r.Intn(200)))
		con := dial(t, s, x.r)
		kind := r.Intn(3)
		overtaken := func() bool {
			top, _ := prefixOf(w, bs)
			return together && top+1 >= x.total
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer con.Close()
			if err := con.send(request(msg.CommandHandshake, helloOf(w.Net, x.r, uint32(x.total), x.blocks[x.total-1].hash).payload())); err != nil {
				t.Failf("bad peer: %v", err)
				return
			}
			what := "bad list of hashes"
			for last := false; !last; {
				f, err := recv(con, 20*time.Second)
				if err != nil {
					if !overtaken() {
						t.Failf("bad peer: the node does not ask for the missing blocks: %v", err)
					}
					return
				}
				ids, k := x.parse(f)
				var a frame
				switch {
				case k == 'c' && kind == 0:
					a, last = notice(msg.NoticeChainEntry, chainEntry(0, uint32(x.total), []crypto.Hash{{5}})), true
				case k == 'c':
					start, hs := x.entry(ids)
					a = notice(msg.NoticeChainEntry, chainEntry(uint32(start), uint32(x.total), hs))
				case k == 'b':
					got, how := spoil(x.r, x.pick(ids), nil)
					a, last = notice(msg.NoticeObjects, pack(x.total, got)), true
					what = how
				default:
					continue
				}
				if err := con.send(a); err != nil {
					t.Failf("bad peer: %v", err)
					return
				}
			}
			// the node that answers to this one is done with the one before
			_ = con.send(request(msg.CommandTimedSync, timedSync(uint32(x.total), x.blocks[x.total-1].hash)))
			switch _, err := con.answer(msg.CommandTimedSync, 30*time.Second); {
			case err == nil && (!together || kind == 0):
				t.Failf("peer is not dropped after: %s", what)
				return
			case err == nil:
				t.Count("bad peers overtaken over TCP", 1)
				return
			default:
				if e, is := err.(net.Error); is && e.Timeout() {
					t.Failf("peer is neither dropped nor answered after: %s", what)
					return
				}
			}
			t.Count("bad peers dropped over TCP", 1)
		}()
		if !together {
			wg.Wait()
			if t.Failed() {
				return
			}
		}
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	top, bad := prefixOf(w, bs)
	if bad != "" {
		t.Failf("after bad peers: %s", bad)
		return
	}
	n = top
	x := newRemote(r, bs, min(len(bs), n+2+r.Intn(400)))
	x.limit = 1000
	x.sparse = sparseOf(w, bs)
	var con *client
	if haveSync && t.I%2 == 1 { // the node is the one that connects
		l, err := net.Listen("tcp4", "127.0.0.1:0")
		if err != nil {
			t.Failf("no loopback: %v", err)
			return
		}
		defer l.Close()
		other := newNode(w, "")
		ctx, cancel := context.WithCancel(context.Background())
		ended := make(chan bool)
		go func() { syncWith(ctx, other, l.Addr().String()); close(ended) }()
		defer func() {
			cancel()
			select {
			case <-ended:
			case <-time.After(stopLimit):
				t.Failf("outgoing connection does not end in %v", stopLimit)
			}
		}()
		a, err := l.Accept()
		if err != nil {
			t.Failf("no connection: %v", err)
			return
		}
		con = &client{a, r}
		f, err := recv(con, 20*time.Second)
		if err != nil || f.cmd != msg.CommandHandshake || !f.ret {
			t.Failf("no handshake request: %v, %v", f, err)
			return
		}
		_ = con.send(response(msg.CommandHandshake, welcome(helloOf(w.Net, r, uint32(x.total), bs[x.total-1].hash), nil)))
		t.Count("outgoing connections", 1)
	} else {
		con = dial(t, s, r)
		if err := con.send(request(msg.CommandHandshake, helloOf(w.Net, r, uint32(x.total), bs[x.total-1].hash).payload())); err != nil {
			t.Failf("handshake: %v", err)
			return
		}
	}
	defer con.Close()
	for w.BC.Height() < uint32(x.total) {
		f, err := recv(con, 30*time.Second)
		if err != nil {
			time.Sleep(2 * time.Second)
			if w.BC.Height() == uint32(x.total) {
				break
			}
			t.Failf("chain of %d, peer with %d: the node stays at %d and asks no more: %v", n+1, x.total, w.BC.Height(), err)
			return
		}
		if f.flags&2 != 0 {
			continue
		}
		a, ok := x.answer(f)
		if !ok {
			t.Failf("unexpected packet %v", f)
			return
		}
		if err := con.send(a); err != nil {
			t.Failf("chain of %d, peer with %d: %v", n+1, x.total, err)
			return
		}
		if a.cmd == msg.NoticeObjects && x.order[len(x.order)-1] == x.total-1 {
			for i := 0; i < 500 && w.BC.Height() < uint32(x.total); i++ {
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	top, bad = prefixOf(w, bs)
	if bad == "" {
		bad = x.bad
	}
	if bad == "" {
		bad = x.exact(n + 1)
	}
	if bad != "" {
		t.Failf("chain of %d, peer with %d over TCP: %s", n+1, x.total, bad)
		return
	}
	t.Count("synchronizations over TCP", 1)
	t.Distinct("tcp", n, x.total)
}

// overtaken23 has blocks that come from elsewhere in the middle of the work of the handlers, at the moments when they write to the log.
func overtaken23(t *mon.T) {
	r := t.Rng
	lc := longChain(t, r.Intn(3) == 0)
	bs := lc.rblocks()
	n := r.Intn(chainLen - 130)
	total := n + 2 + r.Intn(chainLen-n)
	if r.Intn(3) == 0 {
		total = min(len(bs), n+1+batchLimit*(1+r.Intn(3))+r.Intn(3))
	}
	w := lc.prefix(t, n)
	target := n + batchLimit*r.Intn((total-n)/batchLimit+1)
	more := []int{1, 2, 127, 128, 129, r.Intn(300), 1000}[r.Intn(7)]
	came := 0
	busy := false
	watch := func() {
		if busy || came > 0 || int(w.BC.Height()) != target+1 {
			return
		}
		busy = true
		for i := target + 1; i < total && came < more; i++ {
			if err := w.BC.AddBlock(sim.Clone(lc.list[i-1].Block), lc.raw[i-1]); err != nil {
				t.Failf("block %d is not taken: %v", i, err)
				return
			}
			came++
		}
		busy = false
	}
	node := p2p.NewNode(w.BC, p2p.HostConfig{Network: w.Net}, watching(watch))
	x := newRemote(r, bs, total)
	x.watch = watch
	s := newSession(t, &node, w, x)
	var heights []int
	s.con.pause = func() { heights = append(heights, int(w.BC.Height())) }
	idle := false
	seen := 0
	what := fmt.Sprintf("chain of %d, peer with %d, %d blocks come after %d", n+1, total, more, target)
	for round := 0; int(w.BC.Height()) < total; round++ {
		if round > 6 {
			t.Failf("%s: the node stays at %d", what, w.BC.Height())
			return
		}
		var err error
		if round == 0 {
			err = s.begin()
		} else {
			err = s.again()
		}
		for err == nil {
			fs, e := parseFrames(s.con.taken())
			if e != nil || len(fs) > len(heights) {
				t.Failf("%s: broken packets: %v", what, e)
				return
			}
			var a frame
			some := false
			for k, f := range fs {
				if f.flags&2 != 0 {
					continue
				}
				was := len(x.order)
				a, some = x.answer(f)
				for _, i := range x.order[was:] {
					if i < heights[k] {
						t.Failf("%s: block %d is asked though the height is %d", what, i, heights[k])
						return
					}
				}
				seen++
			}
			heights = nil
			if !some {
				break
			}
			err = handle(&node, s.peer, true, a.cmd, a.payload)
		}
		if err == cryptonote.ErrAddBlockAlreadyExists {
			idle, err = true, nil
		}
		if err != nil || s.dead() || x.bad != "" {
			t.Failf("%s: %v, state %d, %s", what, err, view(s.peer).state, x.bad)
			return
		}
		if !idle && int(w.BC.Height()) < total {
			t.Failf("%s: the node stops at %d", what, w.BC.Height())
			return
		}
	}
	top, bad := prefixOf(w, bs)
	if bad != "" {
		t.Failf("%s: %s, top %d", what, bad, top)
		return
	}
	if came > 0 {
		t.Count("synchronizations overtaken", 1)
	}
	t.Count("packets of overtaken ones", int64(seen))
	t.Distinct("overtaken", n, total, more, target)
}
