package main

import (
	"errors"
	"sync/atomic"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

var errPush = errors.New("disk is full")

// history gives random blocks to the chain.
func history(t *mon.T, w *sim.World, steps, fullEach int, fail *int32) {
	r := t.Rng
	var kept []*sim.Candidate // was refused or added before
	for k := 0; k < steps; k++ {
		i := index(w)
		if v := w.M.NextDiff(w.M.Top()); !v.OK || v.V.Sign() == 0 {
			t.Count("histories without the next difficulty", 1)
			return
		}
		if _, ok := w.M.Points[i]; ok {
			return
		}
		switch op := r.Intn(20); {
		case op < 8:
			x := next(t, w, txsFor(w, r.Intn(3))...)
			mustAdd(t, w, x, "valid block")
			kept = append(kept, x)
			t.Distinct(cn.Block(x.B))
		case op < 11 && len(kept) > 0:
			x := kept[r.Intn(len(kept))]
			if r.Intn(2) == 0 {
				x = kept[len(kept)-1]
			}
			submit(t, w, x, "block again")
			t.Count("op: again", 1)
		case op < 15:
			x := next(t, w, txsFor(w, r.Intn(3))...)
			if y := apply(w, x, &blockMutations[r.Intn(len(blockMutations))]); y != nil {
				submit(t, w, y, "damaged block")
				kept = append(kept, y)
				t.Count("op: damaged", 1)
			}
			if r.Intn(2) == 0 { // that it came after does not matter
				if v := w.M.Judge(x.B, x.Raw, sim.Now()); v.OK() {
					mustAdd(t, w, x, "valid block after the damaged one")
				}
				kept = append(kept, x)
			}
		case op < 16 && (w.M.InZone(i) || w.M.Rings != nil):
			c := &txCases[r.Intn(len(txCases))]
			if l := c.f(w); l != nil {
				x := w.Draft(0, l...)
				w.Finish(x)
				submit(t, w, x, "case "+c.name)
				kept = append(kept, x)
				t.Count("op: transactions", 1)
			}
		case op < 17:
			// a block and the one after it come in the wrong order
			x := next(t, w)
			y := x.Clone()
			y.B.PreviousBlockHash = cn.ID(x.B)
			cb(y).Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: i + 1}}
			cb(y).UnlockHeight++
			w.Sign(y)
			submit(t, w, y, "block before its parent")
			mustAdd(t, w, x, "parent")
			submit(t, w, y, "block after its parent")
			kept = append(kept, x, y)
			t.Count("op: wrong order", 1)
		case op < 18 && w.M.At(w.M.Top().Index-2) != nil && w.M.Top().Index > 3:
			// fork from a block deeper in the chain
			from := w.M.At(w.M.Top().Index - uint32(r.Intn(3)))
			x := next(t, w)
			n := from.Index + 1
			asVersion(w, x, sim.Version(n))
			x.B.PreviousBlockHash = from.Hash
			cb(x).Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: n}}
			cb(x).UnlockHeight = uint64(n) + sim.UnlockDelta
			if x.B.MajorVersion == 5 {
				cb(x).Outputs = cb(x).Outputs[:1]
			}
			w.Finish(x)
			submit(t, w, x, "fork")
			kept = append(kept, x)
			t.Count("op: fork", 1)
		case fail != nil:
			x := next(t, w, txsFor(w, r.Intn(3))...)
			y := x.Clone()
			atomic.StoreInt32(fail, 1)
			err := w.BC.AddBlock(y.B, y.Raw)
			atomic.StoreInt32(fail, 0)
			if err == nil {
				t.Failf("block is added though the storage failed")
				t.Stop()
			}
			auditTop(t, w, "failed storage")
			auditCandidate(t, w, x, "failed storage")
			if r.Intn(2) == 0 {
				auditFull(t, w, "failed storage")
			}
			if r.Intn(3) > 0 {
				mustAdd(t, w, x, "block after the storage failed")
			}
			kept = append(kept, x)
			t.Count("op: storage failed", 1)
		}
		if k%fullEach == fullEach-1 {
			auditFull(t, w, "history")
		}
	}
	auditFull(t, w, "end")
}

func c13(c *mon.Ctx) {
	c.Rule("A case is a history of valid blocks, repeated, damaged and reordered ones, forks, and failures of the storage, given to a real chain that starts at the genesis or near an upgrade height. After every step the head, the block and its images, and regularly everything that can be asked, are compared with the list of the accepted blocks. Non trivial: an accepted block.")
	c.Assume("Storage is the memory one, a failure of it is that of PushBlock before it saves anything.")

	c.Par("histories", c.N(150, 3000), func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		o.LogAll = r.Intn(6) == 0
		fail, wrap := failing()
		o.Wrap = wrap
		w := world(t, o)
		mode(t, w)
		defer dropPow(w)
		defer dropRings(w)
		history(t, w, 24, 12, fail)
	})

	c.Par("from the genesis", c.N(32, 300), func(t *mon.T) {
		r := t.Rng
		fail, wrap := failing()
		w := world(t, sim.Options{TestNet: r.Intn(2) == 0, Wrap: wrap})
		auditFull(t, w, "genesis")
		mode(t, w)
		defer dropPow(w)
		defer dropRings(w)
		for k := 0; k < 3; k++ {
			history(t, w, 30, 10, fail)
			// quick growth
			for n := r.Intn(25); n > 0; n-- {
				if _, ok := w.M.Points[index(w)]; ok {
					return
				}
				mustAdd(t, w, next(t, w), "valid block")
			}
		}
	})

	// Every length of the chain has the right list of hashes for synchronization.
	c.Seq("lengths", 1, func(t *mon.T) {
		w := world(t, sim.Options{})
		zone(t, w, 100000)
		for k := 0; k < c.N(300, 1500); k++ {
			sp, err := w.BC.BuildSparseChain()
			want := w.M.Sparse()
			same := err == nil && len(sp) == len(want)
			for i := 0; same && i < len(sp); i++ {
				same = sp[i] == want[i]
			}
			if !same {
				t.Failf("sparse chain at the height %d: %v, %d hashes, want %d", k, err, len(sp), len(want))
			}
			v := w.M.NextDiff(w.M.Top())
			if !v.OK || v.V.Sign() == 0 {
				fail(t, "no difficulty")
			}
			top := w.M.Top()
			x, err := w.Next(top.Time + 240)
			if err != nil {
				t.Stop()
			}
			mustAdd(t, w, x, "valid block")
			t.Count("sparse chains", 1)
		}
		auditFull(t, w, "end")
	})

	// The genesis is that of the network, and the chain that starts again has it only once.
	c.Seq("genesis", 2, func(t *mon.T) {
		w := world(t, sim.Options{TestNet: t.I == 1})
		g, err := w.BC.GenesisBlock()
		if err != nil {
			fail(t, "no genesis: %v", err)
		}
		if w.BC.Height() != 1 || *w.BC.TopBlock().Hash() != *g.Hash() {
			t.Failf("new chain does not start with its genesis")
		}
		if t.I == 0 {
			const id = "3125b79e4a42f8d4d2fc4dffea8442e185ebda940ecd4d3b449056a4ea0efea4"
			if h := mon.Hex(g.Hash()[:]); h != id {
				t.Failf("genesis of the main network is %s", h)
			}
		}
		b := sim.Clone(g)
		if err := w.BC.AddBlock(b, nil); err == nil {
			t.Failf("genesis is added again")
		}
		b = sim.Clone(g)
		b.Nonce++
		if err := w.BC.AddBlock(b, nil); err == nil {
			t.Failf("second genesis is added")
		}
		auditFull(t, w, "genesis")
		var h crypto.Hash = gen.B32(w.R)
		b.PreviousBlockHash = h
		t.Distinct(g.Hash()[:])
	})

	// The storage takes only what extends it and is described right.
	c.Par("storage", c.N(24, 240), func(t *mon.T) {
		r := t.Rng
		w := world(t, sim.Options{Top: uint32(500 + r.Intn(900000)), End: sim.Now() - 100000})
		for k := 0; k < 8; k++ {
			for n := r.Intn(3); n > 0; n-- {
				x, err := w.Next(w.M.Top().Time + 240)
				if err != nil {
					t.Stop()
				}
				mustAdd(t, w, x, "valid block")
			}
			top := w.M.Top()
			x := w.Draft(0)
			if k%4 == 1 {
				w.Finish(x)
			}
			i := cryptonote.NewBlockInfo(top.Index+1, top.Coins+1)
			i.Hash, i.CumulativeDifficulty, i.Size, i.Timestamp = cn.ID(x.B), top.Diff+1, 1000, x.B.Timestamp
			what := ""
			switch r.Intn(6) {
			case 0:
				what = "index of another block"
				i.Index += []uint32{1, ^uint32(0), 256, uint32(r.Intn(100) + 2)}[r.Intn(4)]
			case 1:
				what = "hash of another block"
				i.Hash[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			case 2, 3:
				what = "block that is there"
				e := &w.M.List[r.Intn(len(w.M.List))]
				x.B = sim.Clone(e.Block)
				i.Index, i.Hash = e.Index, e.Hash
			default:
				what = "second block of the height"
				e := &w.M.List[r.Intn(len(w.M.List))]
				x.B = sim.Clone(e.Block)
				x.B.BaseTransaction.UnlockHeight += 1 + uint64(r.Intn(1000))
				i.Index, i.Hash = e.Index, cn.ID(x.B)
			}
			t.SetDesc("storage with the top %d: %s", top.Index, what)
			t.Distinct(what, i.Hash[:])
			y := sim.Clone(x.B)
			if err := w.Store.PushBlock(y, i, cryptonote.TransactionsDetails{}); err == nil {
				t.Failf("storage with the top %d takes %s, %d", top.Index, what, i.Index)
				return
			}
			t.Count("pushes refused", 1)
			auditFull(t, w, what)
		}
	})
	c.Require("pushes refused", 100)

	c.Require("blocks accepted", 500)
	c.Require("only known block", 50)
	c.Require("only side branch", 10)
	c.Require("only unknown parent", 5)
	c.Require("full audits", 100)
	if haveStore {
		c.Require("op: storage failed", 50)
	}
}

// failing makes a storage that fails when it is told.
func failing() (*int32, func(s cryptonote.Storage) cryptonote.Storage) {
	if !haveStore {
		return nil, nil
	}
	f := new(int32)
	return f, func(s cryptonote.Storage) cryptonote.Storage {
		return wrapStore(s, func(*cryptonote.Block) error {
			if atomic.LoadInt32(f) == 1 {
				return errPush
			}
			return nil
		}, nil)
	}
}
