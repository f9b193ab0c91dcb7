package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

// node is a block of a tree of blocks that are given to the chain.
type node struct {
	parent int // -1 is the start of the chain
	valid  bool
	c      *sim.Candidate
	hash   crypto.Hash
	index  uint32
	images []crypto.KeyImage
	txs    []crypto.Hash
}

// tree has the blocks and the chain they start from.
type tree struct {
	w     *sim.World
	base  []sim.Entry // with the genesis
	nodes []node
	zone  uint32
	rings bool
}

func (tr *tree) path(tip int) (p []int) {
	for ; tip >= 0; tip = tr.nodes[tip].parent {
		p = append(p, tip)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return
}

func (tr *tree) topIndex(tip int) uint32 {
	if tip < 0 {
		return tr.base[len(tr.base)-1].Index
	}
	return tr.nodes[tip].index
}

// hashAt is the hash in the chain that ends with the tip.
func (tr *tree) hashAt(tip int, i uint32) (h crypto.Hash, ok bool) {
	top := tr.topIndex(tip)
	if i > top {
		return h, false
	}
	for ; tip >= 0; tip = tr.nodes[tip].parent {
		if tr.nodes[tip].index == i {
			return tr.nodes[tip].hash, true
		}
	}
	for k := range tr.base {
		if tr.base[k].Index == i {
			return tr.base[k].Hash, true
		}
	}
	return h, false
}

func (tr *tree) has(tip, n int) bool {
	for ; tip >= 0; tip = tr.nodes[tip].parent {
		if tip == n {
			return true
		}
	}
	return false
}

func (tr *tree) add(c *sim.Candidate, parent int, valid bool) int {
	n := node{parent: parent, valid: valid, c: c.Clone(), hash: idOf(c), index: tr.topIndex(parent) + 1}
	if n.c == nil {
		return -1
	}
	for i := range tr.nodes {
		if tr.nodes[i].hash == n.hash {
			return -1
		}
	}
	for _, raw := range c.Raw {
		if x, _, ok := cn.ParseTx(raw); ok && valid {
			n.txs = append(n.txs, crypto.Hash(keccak(raw)))
			for _, in := range x.Inputs {
				if k, ok := in.(cryptonote.InputKey); ok {
					n.images = append(n.images, k.KeyImage)
				}
			}
		}
	}
	tr.nodes = append(tr.nodes, n)
	return len(tr.nodes) - 1
}

// ready puts the same doubles and checkpoints to every chain of the tree.
func (tr *tree) ready(t *mon.T, w *sim.World) {
	if tr.zone > 0 {
		checkpoint(t, w, tr.zone, crypto.Hash{1})
	}
	if tr.rings {
		setRings(w)
	}
}

// grow adds n valid blocks and, now and then, wrong ones beside them.
func (tr *tree) grow(t *mon.T, w *sim.World, parent, n int) (tips []int) {
	r := w.R
	for ; n > 0; n-- {
		if v := w.M.NextDiff(w.M.Top()); !v.OK || v.V.Sign() == 0 {
			break
		}
		x := next(t, w, txsFor(w, r.Intn(3))...)
		if r.Intn(3) == 0 {
			m := &blockMutations[r.Intn(len(blockMutations))]
			if y := apply(w, x, m); y != nil && idOf(y) != idOf(x) && y.B.PreviousBlockHash == w.M.Top().Hash {
				v := w.M.Judge(y.B, y.Raw, sim.Now())
				if !v.Has("future") && !v.Has("past") && !v.Has("side branch") && !v.Has("known block") && !v.Has("unknown parent") {
					tr.add(y, parent, v.OK())
				}
			}
		}
		c := x.Clone()
		mustAdd(t, w, x, "draft")
		if parent = tr.add(c, parent, true); parent < 0 {
			fail(t, "generator: block is repeated")
		}
		tips = append(tips, parent)
	}
	return
}

func newTree(t *mon.T, o sim.Options, depth int, fork bool) *tree {
	r := t.Rng
	w := world(t, o)
	tr := &tree{w: w, base: append([]sim.Entry{w.M.Genesis}, w.M.List...)}
	if r.Intn(3) > 0 {
		tr.zone = w.M.Top().Index + 2000
	} else if haveRings {
		tr.rings = true
	}
	tr.ready(t, w)
	defer dropRings(w)
	trunk := tr.grow(t, w, -1, depth)
	if fork && len(trunk) > 0 {
		at := r.Intn(len(trunk))
		w2, err := w.Twin(rand.New(rand.NewSource(r.Int63())), nil, nil)
		if err != nil {
			fail(t, "twin: %v", err)
		}
		tr.ready(t, w2)
		defer dropRings(w2)
		from := -1
		for _, n := range trunk[:at] {
			mustAdd(t, w2, tr.nodes[n].c.Clone(), "twin")
			from = n
		}
		tr.grow(t, w2, from, 1+r.Intn(depth))
		t.Count("trees with forks", 1)
	}
	return tr
}

type bcOp struct {
	kind byte
	n    int
	i    uint32
	k    crypto.KeyImage
	h    crypto.Hash
}

func (o bcOp) String() string {
	switch o.kind {
	case 'A', 'h', 'g':
		return fmt.Sprintf("%s node %d", map[byte]string{'A': "add", 'h': "have", 'g': "get"}[o.kind], o.n)
	case 'i', 'f':
		return fmt.Sprintf("%s at %d", map[byte]string{'i': "hash", 'f': "info"}[o.kind], o.i)
	case 's':
		return fmt.Sprintf("spent %x at %d", o.k[:4], o.i)
	case 't':
		return fmt.Sprintf("have transaction %x", o.h[:4])
	}
	return map[byte]string{'H': "height", 'T': "top", 'S': "sparse", 'I': "saved top"}[o.kind]
}

// some makes a random call.
func (tr *tree) some(r *rand.Rand, whole bool) bcOp {
	o := bcOp{n: r.Intn(len(tr.nodes))}
	n := &tr.nodes[o.n]
	top := tr.topIndex(-1)
	o.i = top + uint32(r.Intn(6)) - 1
	if o.i == 1<<32-1 {
		o.i = 0
	}
	kinds := "AAAAHTTHhhgiIf"
	if whole {
		kinds += "S"
	}
	if len(n.images) > 0 {
		kinds += "ss"
		o.k = n.images[r.Intn(len(n.images))]
	}
	if len(n.txs) > 0 && haveInfo {
		kinds += "t"
		o.h = n.txs[r.Intn(len(n.txs))]
	}
	o.kind = kinds[r.Intn(len(kinds))]
	if o.kind == 'f' && !haveInfo {
		o.kind = 'i'
	}
	if o.kind == 's' && r.Intn(2) == 0 {
		o.i = 1<<32 - 1
	}
	return o
}

func hashText(h *crypto.Hash) string {
	if h == nil {
		return "none"
	}
	return fmt.Sprintf("%x", h[:6])
}

// do makes the call.
func (tr *tree) do(w *sim.World, o bcOp, c *sim.Candidate) string {
	switch o.kind {
	case 'A':
		if w.BC.AddBlock(c.B, c.Raw) == nil {
			return "added"
		}
		return "refused"
	case 'H':
		return fmt.Sprint(w.BC.Height())
	case 'T':
		b := w.BC.TopBlock()
		return fmt.Sprint(b.Index(), " ", hashText(b.Hash()))
	case 'h':
		return fmt.Sprint(w.BC.HaveBlock(&tr.nodes[o.n].hash))
	case 'g':
		b := w.Store.GetBlock(&tr.nodes[o.n].hash)
		if b == nil {
			return "false"
		}
		return fmt.Sprint(b.Index() == tr.nodes[o.n].index && bytes.Equal(cn.Block(b), cn.Block(tr.nodes[o.n].c.B)))
	case 'i':
		h, _ := w.Store.HashAtIndex(o.i)
		return hashText(h)
	case 'I':
		i, _ := w.Store.TopIndex()
		return fmt.Sprint(i)
	case 'f':
		if i := infoAt(w.Store, o.i); i != nil {
			return hashText(&i.Hash)
		}
		return "none"
	case 's':
		return fmt.Sprint(w.BC.IsSpent(o.k, o.i))
	case 't':
		return fmt.Sprint(hasTx(w.Store, o.h))
	}
	l, err := w.BC.BuildSparseChain()
	s := ""
	for i := range l {
		s += hashText(&l[i]) + " "
	}
	if err != nil {
		s += err.Error()
	}
	return s
}

// want is what the call gives in the chain with the tip, and the tip after it.
func (tr *tree) want(tip int, o bcOp) (string, int) {
	switch o.kind {
	case 'A':
		if n := &tr.nodes[o.n]; n.valid && n.parent == tip {
			return "added", o.n
		}
		return "refused", tip
	case 'H':
		return fmt.Sprint(tr.topIndex(tip) + 1), tip
	case 'T':
		i := tr.topIndex(tip)
		h, _ := tr.hashAt(tip, i)
		return fmt.Sprint(i, " ", hashText(&h)), tip
	case 'h', 'g':
		return fmt.Sprint(tr.has(tip, o.n)), tip
	case 'i', 'f':
		if h, ok := tr.hashAt(tip, o.i); ok {
			return hashText(&h), tip
		}
		return "none", tip
	case 'I':
		return fmt.Sprint(tr.topIndex(tip)), tip
	case 's':
		for ; tip >= 0; tip = tr.nodes[tip].parent {
			for _, k := range tr.nodes[tip].images {
				if k == o.k && tr.nodes[tip].index <= o.i {
					return "true", tip
				}
			}
		}
		return "false", tip
	case 't':
		for ; tip >= 0; tip = tr.nodes[tip].parent {
			for _, k := range tr.nodes[tip].txs {
				if k == o.h {
					return "true", tip
				}
			}
		}
		return "false", tip
	}
	top := tr.topIndex(tip)
	h, _ := tr.hashAt(tip, top)
	s := hashText(&h) + " "
	for i := uint32(1); i < top; i *= 2 {
		h, _ := tr.hashAt(tip, top-i)
		s += hashText(&h) + " "
	}
	if top > 0 {
		s += hashText(&tr.base[0].Hash) + " "
	}
	return s, tip
}

func (tr *tree) model() porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return -1 },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			want, _ := tr.want(state.(int), in.(bcOp))
			if want != out.(string) {
				return false, state
			}
			if o := in.(bcOp); o.kind == 'A' && want == "added" {
				return true, o.n
			}
			return true, state
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
}

// slow delays calls of the storage at random.
func slow(seed int64) func(s cryptonote.Storage) cryptonote.Storage {
	if !haveStore {
		return nil
	}
	var n uint64
	nap := func() {
		x := atomic.AddUint64(&n, 1)*0x9e3779b97f4a7c15 + uint64(seed)
		x ^= x >> 29
		switch x % 8 {
		case 0:
			time.Sleep(time.Duration(x>>8%100) * time.Microsecond)
		case 1, 2, 3:
			runtime.Gosched()
		}
	}
	return func(s cryptonote.Storage) cryptonote.Storage {
		return wrapStore(s, func(*cryptonote.Block) error { nap(); return nil }, nap)
	}
}

// start makes a chain that the tree is given to.
func (tr *tree) start(t *mon.T) *sim.World {
	r := t.Rng
	var wrap func(s cryptonote.Storage) cryptonote.Storage
	if r.Intn(4) > 0 {
		wrap = slow(r.Int63())
	}
	w, err := tr.w.Twin(rand.New(rand.NewSource(r.Int63())), wrap, slowLogger())
	if err != nil {
		fail(t, "twin: %v", err)
	}
	tr.ready(t, w)
	return w
}

// tip finds where the chain has come to.
func (tr *tree) tip(t *mon.T, w *sim.World) int {
	h := *w.BC.TopBlock().Hash()
	if h == tr.base[len(tr.base)-1].Hash {
		return -1
	}
	for i := range tr.nodes {
		if tr.nodes[i].hash == h {
			return i
		}
	}
	fail(t, "unknown top block")
	return 0
}

// agree compares the chain after everything with the one that got the same blocks one by one.
func (tr *tree) agree(t *mon.T, w *sim.World) {
	tip := tr.tip(t, w)
	a, err := tr.w.Twin(rand.New(rand.NewSource(1)), nil, nil)
	if err != nil {
		fail(t, "twin: %v", err)
	}
	tr.ready(t, a)
	defer dropRings(a)
	for _, n := range tr.path(tip) {
		mustAdd(t, a, tr.nodes[n].c.Clone(), "one by one")
	}
	w.M = a.M
	auditFull(t, w, "after everything")
}

func c20(c *mon.Ctx) {
	c.Rule("Goroutines give the blocks of a generated tree (valid, sibling, damaged and orphan ones, each many times) to one real chain and query it, with delays inside of the storage and the logger, under the race detector. Recorded histories are checked by a linearizability checker (porcupine) against the sequential chain; longer loads are watched by readers for going back and torn blocks, and in the end compared with the chain that got the same blocks one by one. Non trivial: a distinct history.")
	c.Assume("Storage is the memory one. A case that does not end within its time limit is reported as a deadlock.")

	options := func(t *mon.T) (sim.Options, bool) {
		if t.Rng.Intn(2) == 0 {
			return sim.Options{TestNet: t.Rng.Intn(4) > 0}, true
		}
		o := someOptions(t.Rng)
		return o, false
	}

	c.ParL("histories", c.N(120, 3000), 4, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		o, whole := options(t)
		tr := newTree(t, o, 1+r.Intn(5), r.Intn(2) == 0)
		if len(tr.nodes) == 0 {
			return
		}
		w := tr.start(t)
		defer dropRings(w)
		rec := newRecord()
		gs := 3 + r.Intn(4)
		var lists [][]bcOp
		var cands [][]*sim.Candidate
		for g := 0; g < gs; g++ {
			var l []bcOp
			var cs []*sim.Candidate
			at := 0
			for k := 6 + r.Intn(8); k > 0; k-- {
				o := tr.some(r, whole)
				if o.kind == 'A' && r.Intn(3) > 0 { // mostly in order, so that the chain grows
					o.n = at % len(tr.nodes)
					at++
				}
				l = append(l, o)
				var x *sim.Candidate
				if o.kind == 'A' {
					x = tr.nodes[o.n].c.Clone()
				}
				cs = append(cs, x)
			}
			lists, cands = append(lists, l), append(cands, cs)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range lists {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k, o := range lists[g] {
					rec.do(g, o, func() interface{} { return tr.do(w, o, cands[g][k]) })
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, o := range rec.ops {
			if o.Input.(bcOp).kind == 'A' {
				t.Count("blocks "+o.Output.(string), 1)
			}
		}
		rec.judge(t, tr.model(), "chain")
		tr.agree(t, w)
	})

	c.ParL("load", c.N(16, 200), 4, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		o, whole := options(t)
		tr := newTree(t, o, 12+r.Intn(20), r.Intn(2) == 0)
		if len(tr.nodes) == 0 {
			return
		}
		w := tr.start(t)
		defer dropRings(w)
		accepted := make([]int32, len(tr.nodes))
		var writers, readers sync.WaitGroup
		var stop int32
		for g := 0; g < 4; g++ {
			var cs []*sim.Candidate
			var ids []int
			for round := 0; round < 3; round++ {
				order := make([]int, len(tr.nodes))
				for i := range order {
					order[i] = i
				}
				for k := r.Intn(4) * len(order) / 4; k > 0; k-- {
					i, j := r.Intn(len(order)), r.Intn(len(order))
					order[i], order[j] = order[j], order[i]
				}
				for _, i := range order {
					cs, ids = append(cs, tr.nodes[i].c.Clone()), append(ids, i)
				}
			}
			writers.Add(1)
			go func() {
				defer writers.Done()
				for k, x := range cs {
					if w.BC.AddBlock(x.B, x.Raw) == nil {
						atomic.AddInt32(&accepted[ids[k]], 1)
						if !w.BC.HaveBlock(&tr.nodes[ids[k]].hash) || w.BC.Height() <= tr.nodes[ids[k]].index {
							t.Failf("accepted block %d is not in the chain", tr.nodes[ids[k]].index)
						}
					}
				}
			}()
		}
		for g := 0; g < 4; g++ {
			seed := r.Int63()
			g := g
			readers.Add(1)
			go func() {
				defer readers.Done()
				r := rand.New(rand.NewSource(seed))
				var last uint32
				for n := 0; atomic.LoadInt32(&stop) == 0 || n < 20; n++ {
					h := w.BC.Height()
					b := w.BC.TopBlock()
					if h < last || b.Index()+1 < h {
						t.Failf("height goes back: %d, %d, %d", last, h, b.Index()+1)
						return
					}
					last = b.Index() + 1
					hash := *b.Hash()
					if hash != crypto.Hash(cn.ID(b)) || !w.BC.HaveBlock(&hash) {
						t.Failf("top block %d is torn", b.Index())
						return
					}
					if s := w.Store.GetBlock(&hash); s == nil || *s.Hash() != hash {
						t.Failf("top block %d is not saved", b.Index())
						return
					}
					if p := w.Store.GetBlock(&b.PreviousBlockHash); p == nil || p.Index()+1 != b.Index() {
						if b.Index() > tr.base[len(tr.base)-1].Index {
							t.Failf("parent of the top block %d is not saved", b.Index())
							return
						}
					}
					if at, err := w.Store.HashAtIndex(b.Index()); err != nil || at == nil || *at != hash {
						t.Failf("hash at the top %d differs", b.Index())
						return
					}
					if haveInfo {
						if i := infoAt(w.Store, b.Index()); i == nil || i.Hash != hash || i.Timestamp != b.Timestamp {
							t.Failf("information about the top %d differs", b.Index())
							return
						}
					}
					for _, in := range b.TransactionsHashes {
						if haveInfo && !hasTx(w.Store, in) {
							t.Failf("transaction of the top block %d is not saved", b.Index())
							return
						}
					}
					if whole && g == 0 {
						l, err := w.BC.BuildSparseChain()
						if err != nil || len(l) == 0 {
							t.Failf("no sparse chain: %v", err)
							return
						}
						x := w.Store.GetBlock(&l[0])
						if x == nil || x.Index()+1 < h {
							t.Failf("sparse chain is older than the height %d", h)
							return
						}
						i, k := uint32(1), 1
						for ; i < x.Index(); i, k = i*2, k+1 {
							if s := w.Store.GetBlock(&l[k]); s == nil || s.Index() != x.Index()-i {
								t.Failf("sparse chain of %d is wrong at %d", x.Index(), k)
								return
							}
						}
						t.Count("sparse chains read", 1)
					}
					o := tr.some(r, whole)
					if o.kind != 'A' {
						tr.do(w, o, nil)
					}
					var none crypto.Hash = gen.B32(r)
					if w.BC.HaveBlock(&none) {
						t.Failf("unknown block is found")
					}
					t.Count("readings", 1)
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		writers.Wait()
		atomic.StoreInt32(&stop, 1)
		readers.Wait()
		tip := tr.tip(t, w)
		for i := range tr.nodes {
			want := int32(0)
			if tr.has(tip, i) {
				want = 1
			}
			if accepted[i] != want {
				fail(t, "block %d at %d is accepted %d times, want %d", i, tr.nodes[i].index, accepted[i], want)
			}
		}
		// nothing that could be added is left
		for i := range tr.nodes {
			if n := &tr.nodes[i]; n.valid && n.parent == tip && len(tr.path(tip)) == 0 {
				fail(t, "valid block at %d is not added", n.index)
			}
		}
		t.Count("blocks of loads", int64(len(tr.path(tip))))
		tr.agree(t, w)
		t.Distinct(t.I, len(tr.nodes), tip)
	})

	// All goroutines give the same block at the same moment.
	c.ParL("one block", c.N(100, 2000), 4, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		o, _ := options(t)
		tr := newTree(t, o, 2, r.Intn(3) == 0)
		if len(tr.nodes) == 0 {
			return
		}
		w := tr.start(t)
		defer dropRings(w)
		for round := 0; round < 2; round++ {
			tip := tr.tip(t, w)
			var l []int
			for i := range tr.nodes {
				if tr.nodes[i].parent == tip && tr.nodes[i].valid {
					l = append(l, i)
				}
			}
			if len(l) == 0 {
				break
			}
			var wg sync.WaitGroup
			var won int32
			start := make(chan struct{})
			for g := 0; g < 8; g++ {
				x := tr.nodes[l[g%len(l)]].c.Clone()
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if w.BC.AddBlock(x.B, x.Raw) == nil {
						atomic.AddInt32(&won, 1)
					}
				}()
			}
			close(start)
			wg.Wait()
			if won != 1 {
				fail(t, "%d of the goroutines that gave %d valid blocks at once had one accepted", won, len(l))
			}
			t.Count("contended blocks", 1)
		}
		tr.agree(t, w)
	})

	c.Require("histories decided", 50)
	c.Require("pairs of calls that overlap", 1000)
	c.Require("blocks added", 100)
	c.Require("blocks refused", 300)
	c.Require("trees with forks", 20)
	c.Require("readings", 300)
	c.Require("blocks of loads", 50)
	c.Require("contended blocks", 50)
}
