package main

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func keccak(b []byte) crypto.Hash { return crypto.Hash(ref.Keccak(b)) }

func fresh(t *mon.T, b []byte) *cryptonote.Block {
	x := &cryptonote.Block{}
	if err := x.Deserialize(bytes.NewReader(b)); err != nil {
		t.Failf("block %x: %v", b, err)
		t.Stop()
	}
	return x
}

func checkC06(c *mon.Ctx) {
	c.Rule("Ids, prefix hashes and Merkle roots of generated blocks, transactions and lists are compared with independent Keccak and tree; " +
		"queries come in random orders and repeat; every accepted change of the bytes must change the id. " +
		"A case is non trivial when its object was not seen before.")
	c.Assume("Keccak of harness/ref and the tree of harness/cn are right; the signature of version 5 blocks is not a part of the id (it signs it)")

	c.Par("blocks", c.N(4000, 150000), func(t *mon.T) {
		v := byte(1 + t.I%5)
		src := cn.GenBlock(t.Rng, v)
		b := cn.Block(src)
		x := src
		if t.Rng.Intn(2) == 0 {
			x = fresh(t, b)
		}
		t.Distinct(b)
		t.SetDesc("block %s", mon.Hex(b))
		id, hb, base, prefix := cn.ID(src), cn.HashingBytes(src), keccak(cn.Tx(&src.BaseTransaction)), keccak(cn.Prefix(&src.BaseTransaction.TransactionPrefix))
		for k := 0; k < 8; k++ {
			switch t.Rng.Intn(7) {
			case 0, 1:
				if h := x.Hash(); *h != id {
					t.Failf("id of the block %x is %s, want %s", b, h, id.String())
				}
			case 2:
				if g := x.HashingBytes(); !bytes.Equal(g, hb) {
					t.Failf("hashing bytes of the block %x: %x, want %x", b, g, hb)
				}
			case 3:
				if h := x.BaseTransaction.Hash(); *h != base {
					t.Failf("hash of the base transaction of %x is %s, want %s", b, h, base.String())
				}
			case 4:
				if h := x.BaseTransaction.TransactionPrefix.Hash(); *h != prefix {
					t.Failf("prefix hash of the base transaction of %x is %s, want %s", b, h, prefix.String())
				}
			case 5:
				x.Index()
				if g := x.Serialize(); !bytes.Equal(g, b) {
					t.Failf("block %x is serialized as %x after queries", b, g)
				}
			case 6:
				if x.Parent != nil {
					if h, w := x.Parent.BaseTransaction.Hash(), keccak(cn.Prefix(src.Parent.BaseTransaction.TransactionPrefix)); *h != w {
						t.Failf("hash of the parent base transaction of %x is %s, want %s", b, h, w.String())
					}
				}
			}
			t.Count("queries", 1)
		}
		if h := x.Hash(); *h != id {
			t.Failf("id of the block %x is %s, want %s", b, h, id.String())
		}
		if y := fresh(t, b); !cn.Same(x, y) {
			t.Failf("queries changed the block %x", b)
		}
	})
	c.Par("transactions", c.N(4000, 150000), func(t *mon.T) {
		src := cn.GenTx(t.Rng, t.Rng.Intn(5) == 0)
		b := cn.Tx(src)
		x := src
		if t.Rng.Intn(2) == 0 {
			x = &cryptonote.Transaction{}
			if err := x.Deserialize(bytes.NewReader(b)); err != nil {
				t.Failf("transaction %x: %v", b, err)
				return
			}
		}
		t.Distinct(b)
		t.SetDesc("transaction %s", mon.Hex(b))
		id, prefix := keccak(b), keccak(cn.Prefix(&src.TransactionPrefix))
		for k := 0; k < 6; k++ {
			switch t.Rng.Intn(3) {
			case 0:
				if h := x.Hash(); *h != id {
					t.Failf("id of the transaction %x is %s, want %s", b, h, id.String())
				}
			case 1:
				if h := x.TransactionPrefix.Hash(); *h != prefix {
					t.Failf("prefix hash of the transaction %x is %s, want %s", b, h, prefix.String())
				}
			case 2:
				if g := x.Serialize(); !bytes.Equal(g, b) || x.Size() != uint64(len(b)) {
					t.Failf("transaction %x is serialized as %x after queries", b, g)
				}
				_, _ = x.ParseExtra()
			}
			t.Count("queries", 1)
		}
		if !bytes.Equal(cn.Tx(x), b) {
			t.Failf("queries changed the transaction %x to %x", b, cn.Tx(x))
		}
	})
	// any change of the block changes its id
	c.Par("changes of blocks", c.N(1500, 50000), func(t *mon.T) {
		v := byte(1 + t.I%5)
		src := cn.GenBlock(t.Rng, v)
		b := cn.Block(src)
		t.SetDesc("block %s", mon.Hex(b))
		id := *fresh(t, b).Hash()
		t.Distinct(b)
		sigAt := -1
		if v == 5 {
			sigAt = len(cn.Header(src))
		}
		for k := 0; k < 30; k++ {
			x := append([]byte{}, b...)
			i := t.Rng.Intn(len(x))
			if k%3 == 0 {
				i = t.Rng.Intn(10)
			}
			if sigAt >= 0 && i >= sigAt && i < sigAt+64 {
				continue
			}
			x[i] ^= 1 << uint(t.Rng.Intn(8))
			var y cryptonote.Block
			r := bytes.NewReader(x)
			if y.Deserialize(r) != nil || r.Len() != 0 {
				continue
			}
			if y.MajorVersion >= 5 && sigAt < 0 || y.MajorVersion < 5 && sigAt >= 0 {
				continue
			}
			t.Count("changes of blocks that parse", 1)
			if *y.Hash() == id {
				t.Failf("block %x changed at %d to %x has the same id", b, i, x)
				return
			}
			if w := cn.ID(&y); *y.Hash() != w {
				t.Failf("id of the block %x is %s, want %s", x, y.Hash(), w.String())
			}
		}
		// order of transactions, one more, one less
		if n := len(src.TransactionsHashes); n > 1 {
			y := fresh(t, b)
			i := t.Rng.Intn(n - 1)
			y.TransactionsHashes[i], y.TransactionsHashes[i+1] = y.TransactionsHashes[i+1], y.TransactionsHashes[i]
			if *y.Hash() == id {
				t.Failf("block %x has the same id after transactions %d and %d are swapped", b, i, i+1)
			}
			y = fresh(t, b)
			y.TransactionsHashes = y.TransactionsHashes[:n-1]
			if *y.Hash() == id {
				t.Failf("block %x has the same id without the last transaction", b)
			}
			t.Count("changes of lists", 2)
		}
		y := fresh(t, b)
		y.TransactionsHashes = append(y.TransactionsHashes, gen.B32(t.Rng))
		if *y.Hash() == id {
			t.Failf("block %x has the same id with one more transaction", b)
		}
		if n := len(y.TransactionsHashes); n > 1 {
			y = fresh(t, b)
			y.TransactionsHashes = append(y.TransactionsHashes, y.TransactionsHashes[len(y.TransactionsHashes)-1:]...)
			if *y.Hash() == id {
				t.Failf("block %x has the same id with the last transaction repeated", b)
			}
		}
		if sigAt >= 0 {
			x := append([]byte{}, b...)
			x[sigAt+t.Rng.Intn(64)] ^= 1
			if *fresh(t, x).Hash() != id {
				t.Failf("id of the block %x depends on its signature", b)
			}
		}
	})
	c.Par("changes of transactions", c.N(1500, 50000), func(t *mon.T) {
		b := cn.Tx(cn.GenTx(t.Rng, t.Rng.Intn(5) == 0))
		t.Distinct(b)
		id := keccak(b)
		for k := 0; k < 30; k++ {
			x := append([]byte{}, b...)
			i := t.Rng.Intn(len(x))
			x[i] ^= 1 << uint(t.Rng.Intn(8))
			var y cryptonote.Transaction
			r := bytes.NewReader(x)
			if y.Deserialize(r) != nil || r.Len() != 0 {
				continue
			}
			t.Count("changes of transactions that parse", 1)
			if h := *y.Hash(); h == id || h != keccak(x) {
				t.Failf("transaction %x changed at %d to %x has id %s", b, i, x, h.String())
				return
			}
		}
	})
	// all the tree shapes
	c.Par("trees", c.N(1100, 5000), func(t *mon.T) {
		n := t.I + 1
		if n > 1000 {
			n = 1 + t.Rng.Intn(1200)
		}
		var hl crypto.HashList
		for i := 0; i < n; i++ {
			hl = append(hl, gen.B32(t.Rng))
		}
		spare := make(crypto.HashList, n, n+t.Rng.Intn(3))
		copy(spare, hl)
		t.SetDesc("tree of %d", n)
		want := cn.Root(hl)
		for k := 0; k < 2; k++ {
			if g := spare.MerkleRootHash(); g == nil || *g != want {
				t.Failf("root of %d leaves is %v, want %s", n, g, want.String())
				return
			}
		}
		for i := range hl {
			if hl[i] != spare[i] {
				t.Failf("asking for the root of %d leaves changed leaf %d", n, i)
				return
			}
		}
		br := crypto.HashList(cn.Branch(hl))
		if g := br.TreeHashFromBranch(hl[0]); g != want {
			t.Failf("root of %d leaves from the branch %v is %s, want %s", n, br, g.String(), want.String())
		}
		*spare.MerkleRootHash() = crypto.Hash{} // it's not a leaf
		for i := range hl {
			if hl[i] != spare[i] {
				t.Failf("root of %d leaves is its leaf %d", n, i)
				return
			}
		}
		i := t.Rng.Intn(n)
		spare[i][t.Rng.Intn(32)] ^= 1 << uint(t.Rng.Intn(8))
		if *spare.MerkleRootHash() == want {
			t.Failf("root of %d leaves does not depend on leaf %d", n, i)
		}
		t.Count("tree shapes", 1)
		t.Distinct("tree", n, hl[0][:])
	})
	c.Par("keccak", c.N(700, 20000), func(t *mon.T) {
		b := gen.Bytes(t.Rng, t.I%700)
		if h := crypto.HashFromBytes(b); h != keccak(b) || !bytes.Equal(crypto.Keccak(b), h[:]) {
			t.Failf("keccak of %x is %x", b, h)
		}
		var h crypto.Hash
		h.FromBytes(b)
		if h != keccak(b) {
			t.Failf("keccak of %x is %x", b, h)
		}
		t.Distinct("keccak", b)
	})
	c.Require("changes of blocks that parse", 2000)
	c.Require("changes of transactions that parse", 2000)
	c.Require("tree shapes", 1000)
}
