package main

import (
	"bytes"
	"math"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
)

// mutation damages the block. It returns false when it makes no sense for it.
type mutation struct {
	name string
	// 0: bytes stay as they are, 1: the block is signed again, 2: reward is set and the block is signed
	fix int
	f   func(w *sim.World, c *sim.Candidate) bool
}

func setTime(c *sim.Candidate, ts uint64) {
	c.B.Timestamp = ts
	if c.B.Parent != nil {
		c.B.Parent.Timestamp = ts
	}
}

// asVersion gives the block what its version needs.
func asVersion(w *sim.World, c *sim.Candidate, v byte) {
	b := c.B
	b.MajorVersion = v
	if v == 2 || v == 3 {
		if b.Parent == nil {
			b.Parent = w.Parent(b.Timestamp, b.Nonce, v)
		}
	} else {
		b.Parent = nil
	}
	if v < 5 {
		b.Signature = nil
	} else {
		b.Signature = &crypto.Signature{}
	}
}

func keyInput(w *sim.World) cryptonote.InputKey {
	return cryptonote.InputKey{Amount: 5, OutputIndexes: []uint32{1}, KeyImage: ref.HashToPoint(gen.B32(w.R)).Bytes()}
}

func tlvExtra(n int) []byte { // a well formed extra of n bytes
	if n < 40 {
		return make([]byte, n)
	}
	b := append([]byte{1}, make([]byte, 32)...)
	for n-len(b) > 257+3 {
		b = append(b, 2, 0xff, 1)
		b = append(b, make([]byte, 255)...)
	}
	for len(b) < n {
		k := n - len(b) - 2
		if k < 0 {
			b = append(b, 0)
			continue
		}
		if k > 127 {
			k = 127
		}
		b = append(b, 2, byte(k))
		b = append(b, make([]byte, k)...)
	}
	return b
}

func cb(c *sim.Candidate) *cryptonote.Transaction { return &c.B.BaseTransaction }

func index(w *sim.World) uint32 { return w.M.Top().Index + 1 }

var blockMutations = []mutation{
	{"as it is", 2, func(w *sim.World, c *sim.Candidate) bool { return true }},
	{"version", 2, func(w *sim.World, c *sim.Candidate) bool {
		asVersion(w, c, byte(1+w.R.Intn(5)))
		return true
	}},
	{"neighbour version", 2, func(w *sim.World, c *sim.Candidate) bool {
		v := c.B.MajorVersion
		if w.R.Intn(2) == 0 && v < 5 || v == 1 {
			v++
		} else {
			v--
		}
		asVersion(w, c, v)
		return true
	}},
	{"minor version", 2, func(w *sim.World, c *sim.Candidate) bool {
		c.B.MinorVersion = byte(w.R.Intn(256))
		return true
	}},
	{"parent version", 2, func(w *sim.World, c *sim.Candidate) bool {
		if c.B.Parent == nil {
			return false
		}
		c.B.Parent.MajorVersion = []byte{0, 1, 2, 3, 255}[w.R.Intn(5)]
		return true
	}},
	{"parent size", 2, func(w *sim.World, c *sim.Candidate) bool {
		p := c.B.Parent
		if p == nil {
			return false
		}
		n := 2048 + []int{-1, 0, 1, 2, 40, 1000}[w.R.Intn(6)]
		e := p.BaseTransaction.TransactionPrefix.Extra
		t := *p.BaseTransaction.TransactionPrefix
		// extra is grown with nonces before the tag
		for i := 0; i < 60; i++ {
			d := n - len(cn.Parent(p, false))
			if d == 0 {
				return true
			}
			if d < 0 {
				return false
			}
			var pad []byte
			switch {
			case d > 130:
				pad = append([]byte{2, 100}, make([]byte, 100)...)
			case d == 1:
				t.UnlockHeight = 200 // two bytes
			default:
				pad = append([]byte{2, byte(d - 2)}, make([]byte, d-2)...)
				if d-2 > 127 {
					return false
				}
			}
			e = append(append([]byte{}, pad...), e...)
			t.Extra = e
			p.BaseTransaction = cryptonote.BaseTransaction{TransactionPrefix: &t}
		}
		return len(cn.Parent(p, false)) == n
	}},
	{"late", 2, func(w *sim.World, c *sim.Candidate) bool {
		_, hi := w.TimeRange()
		setTime(c, hi+[]uint64{0, 1, 1, 2, 3, 60, 1000, math.MaxUint64 / 2}[w.R.Intn(8)])
		return true
	}},
	{"early", 2, func(w *sim.World, c *sim.Candidate) bool {
		lo, _ := w.TimeRange()
		ts := lo + []uint64{0, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 100, 1}[w.R.Intn(5)]
		if w.R.Intn(8) == 0 || ts > 1<<62 {
			ts = 0
		}
		setTime(c, ts)
		return true
	}},
	{"no inputs", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Inputs = nil
		return true
	}},
	{"two inputs", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Inputs = append(cb(c).Inputs, cryptonote.InputCoinbase{BlockIndex: index(w)})
		return true
	}},
	{"extra key input", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Inputs = append(cb(c).Inputs, keyInput(w))
		cb(c).TransactionSignatures = [][]crypto.Signature{nil, {{C: gen.B32(w.R)}}}
		return true
	}},
	{"key input", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Inputs = []cryptonote.TransactionInput{keyInput(w)}
		cb(c).TransactionSignatures = [][]crypto.Signature{{{C: gen.B32(w.R)}}}
		return true
	}},
	{"height", 2, func(w *sim.World, c *sim.Candidate) bool {
		i := index(w)
		i = []uint32{i + 1, i - 1, 0, math.MaxUint32}[w.R.Intn(4)]
		cb(c).Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: i}}
		if w.R.Intn(2) == 0 {
			cb(c).UnlockHeight = uint64(i) + sim.UnlockDelta
		}
		return true
	}},
	{"unlock", 2, func(w *sim.World, c *sim.Candidate) bool {
		u := cb(c).UnlockHeight
		cb(c).UnlockHeight = []uint64{u - 1, u + 1, 0, uint64(index(w)), u | 1<<32, math.MaxUint64}[w.R.Intn(6)]
		return true
	}},
	{"unknown parent", 2, func(w *sim.World, c *sim.Candidate) bool {
		c.B.PreviousBlockHash[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
		return true
	}},
	{"zero output", 2, func(w *sim.World, c *sim.Candidate) bool {
		o := cb(c).Outputs
		cb(c).Outputs = append(o[:len(o):len(o)], cryptonote.TransactionOutput{Target: o[0].Target})
		return c.B.MajorVersion < 5
	}},
	{"zero outputs", 0, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Outputs[0].Amount = 0
		return true
	}},
	{"no outputs", 1, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Outputs = nil
		return true
	}},
	{"output key", 2, func(w *sim.World, c *sim.Candidate) bool {
		o := cb(c).Outputs
		o[w.R.Intn(len(o))].Target = cryptonote.OutputKey{PublicKey: gen.PointBytes(w.R)}
		return c.B.MajorVersion < 5
	}},
	{"overflowing outputs", 1, func(w *sim.World, c *sim.Candidate) bool {
		o := cb(c).Outputs
		sum := uint64(0)
		for _, x := range o {
			sum += x.Amount
		}
		cb(c).Outputs = nil
		for _, a := range wrapping(w.R, sum) {
			cb(c).Outputs = append(cb(c).Outputs, cryptonote.TransactionOutput{Amount: a, Target: o[0].Target})
		}
		return c.B.MajorVersion < 5
	}},
	{"reward", 1, func(w *sim.World, c *sim.Candidate) bool {
		o := cb(c).Outputs
		o[w.R.Intn(len(o))].Amount += []uint64{1, math.MaxUint64, 1000000, 1 << 40}[w.R.Intn(4)]
		return true
	}},
	{"signature", 0, func(w *sim.World, c *sim.Candidate) bool {
		s := c.B.Signature
		if s == nil {
			return false
		}
		switch w.R.Intn(6) {
		case 0:
			s.C[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
		case 1:
			s.R[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
		case 2:
			s.R = addOrder(s.R)
		case 3:
			*s = crypto.Signature{}
		case 4:
			c.B.Nonce++
		case 5:
			c.Key = sim.Pool()[w.R.Intn(64)]
			w.Sign(c)
		}
		return true
	}},
	{"two outputs", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Outputs = append(cb(c).Outputs, cryptonote.TransactionOutput{Amount: 1, Target: cryptonote.OutputKey{PublicKey: sim.Pool()[3].Pub}})
		return true
	}},
	{"mining tag", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Extra = append(append([]byte{}, cb(c).Extra...), append([]byte{3}, cn.Tag(w.R, w.R.Intn(3))...)...)
		return true
	}},
	{"extra", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Extra = [][]byte{{}, {0}, {1}, {9}, {2, 5, 1}, gen.Bytes(w.R, w.R.Intn(60)), append(cb(c).Extra, 1), {2, 0}}[w.R.Intn(8)]
		return true
	}},
	{"extra size", 2, func(w *sim.World, c *sim.Candidate) bool {
		cb(c).Extra = tlvExtra(1024 + []int{-1, 0, 1, 2, 1000, 70000}[w.R.Intn(6)])
		return true
	}},
	{"hash too many", 2, func(w *sim.World, c *sim.Candidate) bool {
		c.B.TransactionsHashes = append(c.B.TransactionsHashes, gen.B32(w.R))
		return true
	}},
	{"transaction too many", 2, func(w *sim.World, c *sim.Candidate) bool {
		c.Raw = append(c.Raw, cn.Tx(w.NewTx(sim.TxOpt{Plain: true, Inputs: 1, Ring: 2})))
		return true
	}},
	{"lost transaction", 2, func(w *sim.World, c *sim.Candidate) bool {
		if len(c.Raw) == 0 {
			return false
		}
		c.Raw = c.Raw[:len(c.Raw)-1]
		return true
	}},
	{"swapped transactions", 2, func(w *sim.World, c *sim.Candidate) bool {
		n := len(c.Raw)
		if n < 2 {
			return false
		}
		c.Raw[0], c.Raw[n-1] = c.Raw[n-1], c.Raw[0]
		return !bytes.Equal(c.Raw[0], c.Raw[n-1])
	}},
	{"swapped hashes", 2, func(w *sim.World, c *sim.Candidate) bool {
		n := len(c.Raw)
		if n < 2 {
			return false
		}
		h := c.B.TransactionsHashes
		h[0], h[1] = h[1], h[0]
		return h[0] != h[1]
	}},
	{"wrong hash", 2, func(w *sim.World, c *sim.Candidate) bool {
		n := len(c.Raw)
		if n == 0 {
			return false
		}
		c.B.TransactionsHashes[w.R.Intn(n)] = gen.B32(w.R)
		return true
	}},
	{"prefix hash", 2, func(w *sim.World, c *sim.Candidate) bool {
		n := len(c.Raw)
		if n == 0 {
			return false
		}
		x, _, _ := cn.ParseTx(c.Raw[n-1])
		c.B.TransactionsHashes[n-1] = ref.Keccak(cn.Prefix(&x.TransactionPrefix))
		return true
	}},
	{"repeated transaction", 2, func(w *sim.World, c *sim.Candidate) bool {
		if len(c.Raw) == 0 {
			return false
		}
		c.AddRaw(c.Raw[w.R.Intn(len(c.Raw))])
		return true
	}},
	{"transaction of the chain", 2, func(w *sim.World, c *sim.Candidate) bool {
		if r, ok := w.Old(); ok {
			c.AddRaw(r)
			return true
		}
		return false
	}},
	{"bytes after transaction", 2, func(w *sim.World, c *sim.Candidate) bool {
		i := len(c.Raw) - 1
		if i < 0 {
			return false
		}
		c.Raw[i] = append(c.Raw[i], 0)
		if w.R.Intn(2) == 0 {
			c.B.TransactionsHashes[i] = ref.Keccak(c.Raw[i])
		}
		return true
	}},
	{"cut transaction", 2, func(w *sim.World, c *sim.Candidate) bool {
		i := len(c.Raw) - 1
		if i < 0 {
			return false
		}
		c.Raw[i] = c.Raw[i][:w.R.Intn(len(c.Raw[i]))]
		c.B.TransactionsHashes[i] = ref.Keccak(c.Raw[i])
		return true
	}},
	{"nonce", 1, func(w *sim.World, c *sim.Candidate) bool {
		setNonce(c, w.R.Uint32())
		return true
	}},
	{"no work", 1, func(w *sim.World, c *sim.Candidate) bool {
		setNonce(c, c.B.Nonce&^7)
		return w.M.Pow != nil
	}},
	{"sibling", 2, func(w *sim.World, c *sim.Candidate) bool {
		top := w.M.Top()
		if w.M.At(top.Index-1) == nil || top.Index < 2 {
			return false
		}
		i := top.Index
		asVersion(w, c, sim.Version(i))
		c.B.PreviousBlockHash = top.Block.PreviousBlockHash
		cb(c).Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: i}}
		cb(c).UnlockHeight = uint64(i) + sim.UnlockDelta
		if c.B.MajorVersion == 5 {
			cb(c).Outputs = cb(c).Outputs[:1]
		}
		return true
	}},
	{"known block", 0, func(w *sim.World, c *sim.Candidate) bool {
		l := w.M.List
		if len(l) == 0 {
			return false
		}
		c.B = sim.Clone(l[w.R.Intn(len(l))].Block)
		if w.R.Intn(2) == 0 {
			c.B = sim.Clone(l[len(l)-1].Block)
		}
		c.Raw = nil
		return true
	}},
}

// apply makes a damaged copy of the block, nil when the mutation does not fit.
func apply(w *sim.World, c *sim.Candidate, m *mutation) *sim.Candidate {
	x := c.Clone()
	if x == nil || !m.f(w, x) {
		return nil
	}
	switch m.fix {
	case 1:
		w.Sign(x)
	case 2:
		w.Finish(x)
	}
	return x
}

// txsFor makes transactions for the next block.
func txsFor(w *sim.World, n int) (r []*cryptonote.Transaction) {
	i := index(w)
	if !w.M.InZone(i) && w.M.Rings == nil {
		return nil
	}
	for ; n > 0; n-- {
		o := sim.TxOpt{Plain: w.M.InZone(i), Inputs: 1}
		if !w.M.InZone(i) {
			o.Ring = 1 + w.R.Intn(3)
		}
		r = append(r, w.NewTx(o))
	}
	return
}

func c14(c *mon.Ctx) {
	c.Rule("A case is a chain with a synthetic or grown history near some upgrade height. A valid block and many damaged copies of it, usually with a single fault, are given to the real chain; the accept or refuse verdict, and the state after it, are compared with the reference model of the rules. Non trivial: blocks reach the rule that decides about them alone.")
	c.Assume("The memory storage is pre-filled with synthetic blocks to reach heights of the upgrades.")
	c.Assume("Where proof of work and output keys of rings are stubs, test doubles put in with the overlay judge them.")

	c.Par("faults", c.N(160, 2600), func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		if t.I%8 == 0 {
			o = sim.Options{TestNet: r.Intn(2) == 0}
		}
		w := world(t, o)
		mode(t, w)
		defer dropPow(w)
		defer dropRings(w)
		rounds := 4
		if o.Top == 0 {
			rounds = 70
		}
		for k := 0; k < rounds; k++ {
			good := next(t, w, txsFor(w, r.Intn(4))...)
			t.SetDesc("top %d, zone %v, round %d", w.M.Top().Index, w.M.InZone(index(w)), k)
			tries := 14
			if o.Top == 0 {
				tries = 2
			}
			for i := 0; i < tries; i++ {
				m := &blockMutations[r.Intn(len(blockMutations))]
				x := apply(w, good, m)
				if x == nil {
					continue
				}
				before := w.M.Top()
				what := "mutation " + m.name
				if submit(t, w, x, what) {
					t.Count("damaged blocks that are right", 1)
				}
				t.Distinct(cn.Block(x.B))
				if w.M.Top() != before {
					break // it was accepted
				}
			}
			if good.B.PreviousBlockHash == w.M.Top().Hash {
				v := w.M.Judge(good.B, good.Raw, sim.Now())
				if v.OK() {
					mustAdd(t, w, good, "valid block")
					t.Count("valid blocks", 1)
				} else {
					submit(t, w, good, "block that can't be right")
					if v.Has("difficulty") {
						break
					}
				}
			}
		}
		auditFull(t, w, "end")
	})

	// Every fault at every block around the upgrades.
	var edges []uint32
	for _, b := range bounds {
		edges = append(edges, b-1, b, b+1)
	}
	c.ParL("edges", c.N(2*len(edges), 20*len(edges)), 8, 300*time.Second, func(t *mon.T) {
		r := t.Rng
		at := edges[t.I%len(edges)]
		var w *sim.World
		fresh := func() *sim.Candidate {
			if w != nil {
				dropPow(w)
				dropRings(w)
			}
			w = world(t, sim.Options{Top: at - 1, TestNet: t.I/len(edges)%4 == 3})
			mode(t, w)
			return next(t, w, txsFor(w, 1+r.Intn(3))...)
		}
		good := fresh()
		defer func() { dropPow(w); dropRings(w) }()
		for _, k := range r.Perm(4 * len(blockMutations)) {
			m := &blockMutations[k%len(blockMutations)]
			x := apply(w, good, m)
			if x == nil {
				continue
			}
			t.SetDesc("fault %s, index %d, zone %v", m.name, at, w.M.InZone(at))
			t.Distinct(cn.Block(x.B))
			submit(t, w, x, "mutation "+m.name)
			if w.M.Top().Index >= at {
				t.Count("accepted at the edge", 1)
				good = fresh()
			} else {
				t.Count("refused at the edge", 1)
			}
		}
	})
	c.Require("accepted at the edge", 100)
	c.Require("refused at the edge", 1000)

	// Sizes of blocks around the limits.
	c.ParL("sizes", c.N(40, 400), 8, mon.DefaultLimit, func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		if o.Size == nil || r.Intn(2) == 0 {
			m := int64(1e6 + r.Int63n(12e5))
			o.Size = func() uint64 { return uint64(m) + uint64(r.Intn(3)) }
		}
		if r.Intn(4) == 0 {
			o.Top = 1000 + uint32(r.Intn(50000))
			o.Size = func() uint64 { return uint64(r.Intn(200000)) }
		}
		w := world(t, o)
		zone(t, w, o.Top+100)
		sizes := func() uint64 {
			var s []uint64
			for _, e := range w.M.Window(w.M.Top(), 100, true) {
				s = append(s, e.Size)
			}
			m := sim.Median(s)
			if z := sim.FullZone(sim.Version(index(w))); m < z {
				m = z
			}
			return m
		}
		for k := 0; k < 4; k++ {
			i := index(w)
			max := sim.MaxBlockSize(uint64(i))
			med := sizes()
			lim := max
			if 2*med < lim {
				lim = 2 * med
			}
			goals := []uint64{lim, lim + 1, lim - 1, max, max + 1, lim + lim/3}
			if med < lim {
				goals = append(goals, med, med+1, med+(lim-med)/2)
			}
			goal := goals[r.Intn(len(goals))]
			t.SetDesc("index %d size %d of %d, median %d", i, goal, max, med)
			x := sized(w, goal)
			if x == nil {
				t.Count("size is not reached", 1)
				continue
			}
			submit(t, w, x, "sized block")
			t.Count("blocks of aimed size", 1)
			t.Distinct(goal, i)
		}
	})

	// Checkpoints decide about blocks that are right otherwise.
	c.Par("checkpoints", c.N(60, 600), func(t *mon.T) {
		r := t.Rng
		w := world(t, sim.Options{Top: pickTop(r)})
		mode(t, w)
		defer dropPow(w)
		defer dropRings(w)
		for k := 0; k < 4; k++ {
			a := next(t, w, txsFor(w, r.Intn(2))...)
			b := apply(w, a, &mutation{"other nonce", 1, func(w *sim.World, c *sim.Candidate) bool {
				c.B.Nonce += 8
				if c.B.Parent != nil {
					c.B.Parent.Nonce = c.B.Nonce
				}
				return true
			}})
			i := index(w)
			ah := crypto.Hash(cn.ID(a.B))
			switch r.Intn(4) {
			case 0:
				checkpoint(t, w, i, ah)
			case 1:
				checkpoint(t, w, i, ah)
				checkpoint(t, w, i, cn.ID(b.B)) // too late
			case 2:
				checkpoint(t, w, i+uint32(r.Intn(3)), gen.B32(r))
			}
			// zone may have changed what the transactions need
			if w.M.Judge(a.B, a.Raw, sim.Now()).Has("tx ring signature") {
				break
			}
			submit(t, w, b, "other block")
			if w.M.Top().Index < i {
				submit(t, w, a, "block")
			}
			if w.M.Top().Index < i {
				break
			}
		}
		auditFull(t, w, "end")
	})

	// What the stub does. Nobody finds work of that difficulty by chance so many times.
	c.Seq("work", 1, func(t *mon.T) {
		w := world(t, sim.Options{Top: 750000})
		all := true
		for k := 0; k < 20; k++ {
			x := next(t, w)
			if err := w.BC.AddBlock(x.Clone().B, nil); err != nil {
				all = false
				break
			}
			v := w.M.Judge(x.B, nil, sim.Now())
			if !v.OK() {
				fail(t, "broken %v", v.Broken)
			}
			w.M.Push(x.B, v, w.M.Top().Diff+v.Diff.V.Uint64())
		}
		if all {
			t.Finding("pow-stub", "20 blocks in a row with random nonces at difficulty over %d are accepted outside of the checkpoint zone", sim.MinDiff)
		}
	})

	for _, rule := range []string{"version", "parent size", "future", "past", "coinbase height", "coinbase unlock", "coinbase key", "coinbase extra",
		"coinbase extra size", "coinbase outputs", "signature", "reward", "unknown parent", "side branch", "known block", "transaction count", "transaction bytes",
		"included transaction", "checkpoint", "block size", "size over median", "coinbase overflow"} {
		c.Require("only "+rule, 1)
	}
	if havePow {
		c.Require("only work", 5)
	}
	c.Require("valid blocks", 100)
	c.Require("blocks accepted in zone", 50)
}

// mode puts the chain into the checkpoint zone or gives it the test doubles.
func mode(t *mon.T, w *sim.World) {
	r := t.Rng
	if r.Intn(3) > 0 {
		zone(t, w, w.M.Top().Index+uint32(1+r.Intn(300)))
	}
	if haveRings {
		setRings(w)
	}
	if havePow {
		judge := func(b *cryptonote.Block, d uint64) bool { return b.Nonce%8 != 0 }
		w.M.Pow = judge
		setPow(w, func(b *cryptonote.Block, d uint64) bool {
			if w.M.InZone(index(w)) {
				t.Failf("work of the block %d is checked in the checkpoint zone", index(w))
			}
			if want := w.M.NextDiff(w.M.Top()); b.PreviousBlockHash == w.M.Top().Hash && (!want.OK || want.Fits && !near(d, want)) {
				t.Failf("work of the block %d is checked for difficulty %d, want %v", index(w), d, want.V)
			}
			t.Count("work checked", 1)
			return judge(b, d)
		})
	}
}

// sized makes a block of the size out of transactions with long extra, nil when it can't.
func sized(w *sim.World, goal uint64) *sim.Candidate {
	r := w.R
	i := index(w)
	var txs []*cryptonote.Transaction
	rest := goal
	if i >= sim.V4s2 || r.Intn(2) == 0 {
		for rest > 200000 {
			n := 100000 + r.Intn(80000)
			x := w.NewTx(sim.TxOpt{Plain: true, Inputs: 1, Ring: 1, Extra: make([]byte, n)})
			txs = append(txs, x)
			rest -= uint64(len(cn.Tx(x)))
		}
	}
	c := w.Draft(0, txs...)
	var last *cryptonote.Transaction
	pad := &cb(c).Extra
	if i >= sim.V4s2 {
		last = w.NewTx(sim.TxOpt{Plain: true, Inputs: 1, Ring: 1, Extra: make([]byte, 150000), Fee: 1e16})
		pad = &last.Extra
		c.AddRaw(cn.Tx(last))
	}
	for k := 0; k < 60; k++ {
		if last != nil {
			c.Raw[len(c.Raw)-1] = cn.Tx(last)
			c.B.TransactionsHashes[len(c.Raw)-1] = ref.Keccak(cn.Tx(last))
		}
		v := w.M.Judge(c.B, c.Raw, c.B.Timestamp)
		d := int64(goal) - int64(v.Size)
		if d == 0 {
			if v.Reward == nil { // over the median, any reward is wrong
				w.Sign(c)
				return c
			}
			if !v.Has("reward") {
				w.Sign(c)
				return c
			}
			c.SetReward(v.Reward.Uint64())
			continue
		}
		n := int64(len(*pad)) + d
		if n < 0 || n > 2000000 || last != nil && n > 249000 {
			return nil
		}
		*pad = make([]byte, n)
		if v.Reward != nil {
			c.SetReward(v.Reward.Uint64())
		}
	}
	return nil
}
