package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

// Info is what the chain saves about a block.
type Info struct {
	Index           uint32
	Hash            crypto.Hash
	Cum, TxN, Coins uint64
	Timestamp, Size uint64
}

// tops are indexes of the last block near every upgrade and between them.
var bounds = []uint32{sim.V2, sim.V3, sim.V3s1, sim.V4, sim.V4s1, sim.V4s2, sim.V4s3, sim.V5, sim.V5 + 120}

func pickTop(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{30000, 150000, 216200, 250000, 280000, 400000, 600000, 690000, 750000, 2000000}[r.Intn(10)]
	default:
		return bounds[r.Intn(len(bounds))] + uint32(r.Intn(7)) - 4
	}
}

// world makes a chain whose last block has the index.
func world(t *mon.T, o sim.Options) *sim.World {
	w, err := sim.NewWorld(t.Rng, o)
	if err != nil {
		t.Failf("chain with the top %d is not made: %v", o.Top, err)
		t.Stop()
	}
	return w
}

func someOptions(r *rand.Rand) sim.Options {
	o := sim.Options{Top: pickTop(r)}
	o.TestNet = r.Intn(8) == 0
	switch r.Intn(4) {
	case 0:
		o.Coins = uint64(r.Int63n(9e18)) + 1e15
	case 1:
		o.Coins = 97e17 + uint64(r.Int63n(8e17))
	}
	if r.Intn(2) == 0 {
		o.Cum = 1e13 + uint64(r.Int63n(1e16))
		o.Diff = 2e5 + uint64(r.Int63n(1e9))
	}
	switch r.Intn(4) {
	case 0:
		m := int64(1+r.Intn(3)) * 400000
		o.Size = func() uint64 { return uint64(r.Int63n(m)) }
	case 1:
		o.Size = func() uint64 { return 60000 + uint64(r.Int63n(100000)) }
	}
	return o
}

// zone puts the next n blocks into the checkpoint zone.
func zone(t *mon.T, w *sim.World, last uint32) {
	h := crypto.Hash(gen.B32(w.R))
	checkpoint(t, w, last, h)
}

func checkpoint(t *mon.T, w *sim.World, i uint32, h crypto.Hash) {
	err := w.BC.Checkpoints.AddCheckpoint(i, h)
	if have := !w.M.Point(i, h); have != (err != nil) {
		t.Failf("checkpoint %d: added before %v, got %v", i, have, err)
	}
}

func describe(c *sim.Candidate) string {
	s := "block " + mon.Hex(cn.Block(c.B))
	for i, r := range c.Raw {
		if i < 3 {
			s += fmt.Sprintf(" tx%d ", i) + mon.Hex(r)
		}
	}
	return s
}

func near(got uint64, d sim.Diff) bool {
	if d.Exact {
		return d.V.IsUint64() && d.V.Uint64() == got
	}
	x := new(big.Int).SetUint64(got)
	x.Sub(x, d.V).Abs(x)
	tol := new(big.Int).Div(d.V, big.NewInt(1e10))
	return x.Cmp(tol.Add(tol, big.NewInt(1))) <= 0
}

// submit gives the block to the chain and compares the verdict with the model. It tells if the block is accepted.
func submit(t *mon.T, w *sim.World, c *sim.Candidate, what string) bool {
	c = c.Clone()
	if c == nil {
		t.Failf("%s: block is not read back from its bytes", what)
		t.Stop()
	}
	top := w.M.Top()
	before := sim.Now()
	v := w.M.Judge(c.B, c.Raw, before)
	err := w.BC.AddBlock(c.B, c.Raw)
	after := sim.Now()
	ok := v.OK()
	if len(v.Broken) == 1 && v.Has("future") && after != before {
		ok = err == nil
	}
	if v.Diff.OK && !v.Diff.Fits {
		t.Count("numbers out of range", 1)
		t.Stop()
	}
	if ok != (err == nil) {
		t.Failf("%s at %d (zone %v): broken rules %v, chain says %v\n%s", what, top.Index+1, w.M.InZone(top.Index+1), v.Broken, err, describe(c))
		t.Stop()
	}
	for _, b := range v.Broken {
		t.Count("broken "+b, 1)
	}
	if len(v.Broken) == 1 {
		t.Count("only "+v.Broken[0], 1)
	}
	if err != nil {
		t.Count("blocks refused", 1)
		auditTop(t, w, what)
		auditCandidate(t, w, c, what)
		return false
	}
	t.Count("blocks accepted", 1)
	if w.M.InZone(top.Index + 1) {
		t.Count("blocks accepted in zone", 1)
	}
	cum := top.Diff + v.Diff.V.Uint64()
	if haveInfo {
		i := infoAt(w.Store, top.Index+1)
		if i == nil {
			t.Failf("%s: no information about the accepted block %d", what, top.Index+1)
			t.Stop()
		}
		if !near(i.Cum-top.Diff, v.Diff) {
			t.Failf("%s: difficulty of the block %d is %d, want %v", what, top.Index+1, i.Cum-top.Diff, v.Diff.V)
			t.Stop()
		}
		cum = i.Cum
	}
	w.M.Push(c.B, v, cum)
	w.Keep(c.Raw)
	auditTop(t, w, what)
	auditCandidate(t, w, c, what)
	return true
}

// mustAdd adds a block that is right by construction.
func mustAdd(t *mon.T, w *sim.World, c *sim.Candidate, what string) {
	if !submit(t, w, c, what) {
		v := w.M.Judge(c.B, c.Raw, sim.Now())
		if v.Has("difficulty") { // the chain is too fast
			auditFull(t, w, what)
			t.Count("no next difficulty", 1)
			t.Stop()
		}
		if lo, hi := w.TimeRange(); lo > hi { // the upgrade made the last blocks too new
			t.Count("no next timestamp", 1)
			t.Stop()
		}
		t.Failf("generator: %s: block is not right: %v", what, v.Broken)
		t.Stop()
	}
}

// next drafts a valid block.
func next(t *mon.T, w *sim.World, txs ...*cryptonote.Transaction) *sim.Candidate {
	for i := 0; i < 5; i++ {
		if c, err := w.Next(0, txs...); err == nil {
			if w.M.Pow != nil {
				setNonce(c, c.B.Nonce|1)
				w.Sign(c)
			}
			return c
		}
	}
	t.Count("no block", 1)
	t.Stop()
	return nil
}

func setNonce(c *sim.Candidate, n uint32) {
	c.B.Nonce = n
	if c.B.Parent != nil {
		c.B.Parent.Nonce = n
	}
}

func fail(t *mon.T, format string, a ...interface{}) {
	t.Failf(format, a...)
	t.Stop()
}

// auditTop compares the head of the chain with the model.
func auditTop(t *mon.T, w *sim.World, what string) {
	top := w.M.Top()
	if h := w.BC.Height(); h != top.Index+1 {
		fail(t, "%s: height is %d, want %d", what, h, top.Index+1)
	}
	b := w.BC.TopBlock()
	if b == nil || *b.Hash() != top.Hash || b.Index() != top.Index {
		fail(t, "%s: wrong top block, want %x at %d", what, top.Hash, top.Index)
	}
	if i, err := w.Store.TopIndex(); err != nil || i != top.Index {
		fail(t, "%s: saved top is %d, %v, want %d", what, i, err, top.Index)
	}
	if h, _ := w.Store.HashAtIndex(top.Index + 1); h != nil {
		fail(t, "%s: there is a hash above the top: %x", what, *h)
	}
	if h, err := w.Store.HashAtIndex(top.Index); err != nil || h == nil || *h != top.Hash {
		fail(t, "%s: wrong hash of the top, want %x", what, top.Hash)
	}
	t.Count("head audits", 1)
}

// auditCandidate checks that the traces of the block are in the chain only if it is there.
func auditCandidate(t *mon.T, w *sim.World, c *sim.Candidate, what string) {
	h := crypto.Hash(cn.ID(c.B))
	in := w.M.ByHash(h) != nil
	if g := w.BC.HaveBlock(&h); g != in {
		fail(t, "%s: have block %v, want %v", what, g, in)
	}
	g := w.Store.GetBlock(&h)
	if (g != nil) != in {
		fail(t, "%s: block found %v, want %v", what, g != nil, in)
	}
	if in && !bytes.Equal(cn.Block(g), cn.Block(w.M.ByHash(h).Block)) {
		fail(t, "%s: saved block differs", what)
	}
	for _, r := range c.Raw {
		x, _, ok := cn.ParseTx(r)
		if !ok {
			continue
		}
		auditImages(t, w, x, what)
		if haveInfo {
			id := crypto.Hash(keccak(r))
			_, in := w.M.TxAt[id]
			if hasTx(w.Store, id) != in {
				fail(t, "%s: transaction %x is included: %v, the chain says otherwise", what, id, in)
			}
		}
	}
}

func auditImages(t *mon.T, w *sim.World, x *cryptonote.Transaction, what string) {
	for _, in := range x.Inputs {
		if k, ok := in.(cryptonote.InputKey); ok {
			auditImage(t, w, k.KeyImage, what)
		}
	}
}

func auditImage(t *mon.T, w *sim.World, k crypto.KeyImage, what string) {
	at, spent := w.M.Spent[k]
	top := w.M.Top().Index
	for _, h := range []uint32{0, at - 1, at, at + 1, top, top + 1, 1<<32 - 1} {
		want := spent && at <= h
		if g := w.BC.IsSpent(k, h); g != want {
			fail(t, "%s: image %x, that is spent %v at %d, is spent up to %d: %v", what, k, spent, at, h, g)
		}
	}
	t.Count("key image audits", 1)
}

// auditFull compares everything that can be asked.
func auditFull(t *mon.T, w *sim.World, what string) {
	auditTop(t, w, what)
	top := w.M.Top()
	if complete(w) {
		sp, err := w.BC.BuildSparseChain()
		want := w.M.Sparse()
		if err != nil || len(sp) != len(want) {
			fail(t, "%s: sparse chain has %d hashes, %v, want %d", what, len(sp), err, len(want))
		}
		for i := range sp {
			if sp[i] != want[i] {
				fail(t, "%s: sparse chain differs at %d", what, i)
			}
		}
		t.Count("sparse chains", 1)
	}
	all := append([]sim.Entry{w.M.Genesis}, w.M.List...)
	for i := range all {
		e := &all[i]
		h, err := w.Store.HashAtIndex(e.Index)
		if err != nil || h == nil || *h != e.Hash {
			fail(t, "%s: hash at %d is not %x", what, e.Index, e.Hash)
		}
		if !w.BC.HaveBlock(&e.Hash) {
			fail(t, "%s: block %d is lost", what, e.Index)
		}
		b := w.Store.GetBlock(&e.Hash)
		if b == nil || b.Index() != e.Index || *b.Hash() != e.Hash || !bytes.Equal(cn.Block(b), cn.Block(e.Block)) {
			fail(t, "%s: block %d is not the one that was added", what, e.Index)
		}
		if i > 1 && b.PreviousBlockHash != all[i-1].Hash {
			fail(t, "%s: block %d does not follow %d", what, e.Index, e.Index-1)
		}
		if haveInfo {
			g := infoAt(w.Store, e.Index)
			want := Info{e.Index, e.Hash, e.Diff, e.TxN, e.Coins, e.Time, e.Size}
			if g == nil || *g != want {
				fail(t, "%s: information about %d is %+v, want %+v", what, e.Index, g, want)
			}
		}
	}
	if haveInfo && infoAt(w.Store, top.Index+1) != nil {
		fail(t, "%s: information above the top", what)
	}
	for k := range w.M.Spent {
		auditImage(t, w, k, what)
	}
	if haveInfo {
		for h := range w.M.TxAt {
			if !hasTx(w.Store, h) {
				fail(t, "%s: transaction %x is lost", what, h)
			}
		}
	}
	var none crypto.Hash = gen.B32(w.R)
	if w.BC.HaveBlock(&none) || w.Store.GetBlock(&none) != nil {
		fail(t, "%s: unknown block is found", what)
	}
	t.Count("full audits", 1)
}

// complete tells that there are no holes between the genesis and the rest.
func complete(w *sim.World) bool { return len(w.M.List) == 0 || w.M.List[0].Index == 1 }
