package main

import (
	"bytes"
	"fmt"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
)

func judgeBlock(t *mon.T, b []byte) {
	want, rest, ok := cn.ParseBlock(b)
	var x cryptonote.Block
	r := bytes.NewReader(b)
	err := x.Deserialize(r)
	if ok != (err == nil) {
		t.Failf("block %x: right by the format: %v, parsed: %v", b, ok, err)
		return
	}
	if !ok {
		t.Count("blocks refused", 1)
		return
	}
	t.Count("blocks accepted", 1)
	if !cn.Same(&x, want) {
		t.Failf("block %x is parsed as\n%s\nwant\n%s", b, short(x), short(*want))
		return
	}
	if r.Len() != len(rest) {
		t.Failf("block %x: %d bytes left, want %d", b, r.Len(), len(rest))
	}
	if s := x.Serialize(); !bytes.Equal(s, b[:len(b)-len(rest)]) {
		t.Failf("block %x is serialized back as %x", b[:len(b)-len(rest)], s)
	}
	rb := p2p.RawBlock{Block: b}
	if y, err := rb.ToBlock(); (err == nil) != (len(rest) == 0) || err == nil && !cn.Same(y, want) {
		t.Failf("raw block %x with %d more bytes: %v", b, len(rest), err)
	}
}

func judgeTx(t *mon.T, b []byte) {
	want, rest, ok := cn.ParseTx(b)
	var x cryptonote.Transaction
	r := bytes.NewReader(b)
	err := x.Deserialize(r)
	// coinbase next to other inputs or signatures without owner
	if ok != (err == nil) {
		t.Failf("transaction %x: right by the format: %v, parsed: %v", b, ok, err)
		return
	}
	if !ok {
		t.Count("transactions refused", 1)
		return
	}
	t.Count("transactions accepted", 1)
	if !cn.Same(&x, want) {
		t.Failf("transaction %x is parsed as\n%s\nwant\n%s", b, short(x), short(*want))
		return
	}
	if r.Len() != len(rest) {
		t.Failf("transaction %x: %d bytes left, want %d", b, r.Len(), len(rest))
	}
	s := x.Serialize()
	if !bytes.Equal(s, b[:len(b)-len(rest)]) {
		t.Failf("transaction %x is serialized back as %x", b[:len(b)-len(rest)], s)
	}
	if x.Size() != uint64(len(s)) {
		t.Failf("size of %x is %d", s, x.Size())
	}
}

func checkC05(c *mon.Ctx) {
	c.Rule("Generated blocks of all versions and transactions of all shapes are serialized and parsed; their bytes are cut, altered, given other " +
		"varints and parsed again. Bytes, objects, verdicts and bytes left are compared with a reference codec. " +
		"A case is non trivial when its bytes were not seen before.")
	c.Assume("harness/cn/cn.go reads and writes the CryptoNote binary format right; multisignature inputs and outputs are not supported by the node and are refused")

	c.Par("blocks", c.N(6000, 250000), func(t *mon.T) {
		v := byte(1 + t.I%5)
		b := cn.GenBlock(t.Rng, v)
		want := cn.Block(b)
		t.Distinct(want)
		t.SetDesc("block %s", mon.Hex(want))
		if got := b.Serialize(); !bytes.Equal(got, want) {
			t.Failf("block %s:\n serialized %x\n want       %x\n%s", short(*b), got, want, diffAt(got, want))
			return
		}
		if got := b.HashingBytes(); !bytes.Equal(got, cn.HashingBytes(b)) {
			t.Failf("hashing bytes of %x: %x want %x", want, got, cn.HashingBytes(b))
		}
		var x cryptonote.Block
		tail := gen.Bytes(t.Rng, t.Rng.Intn(3))
		r := bytes.NewReader(append(append([]byte{}, want...), tail...))
		if err := x.Deserialize(r); err != nil || r.Len() != len(tail) {
			t.Failf("block %x: %v, %d bytes left of %d", want, err, r.Len(), len(tail))
			return
		}
		if !cn.Same(&x, b) {
			t.Failf("block %x is parsed as\n%s\nwant\n%s", want, short(x), short(*b))
		}
		t.Count(fmt.Sprintf("blocks of version %d", v), 1)
	})
	c.Par("transactions", c.N(6000, 250000), func(t *mon.T) {
		x := cn.GenTx(t.Rng, t.Rng.Intn(5) == 0)
		want := cn.Tx(x)
		t.Distinct(want)
		t.SetDesc("transaction %s", mon.Hex(want))
		if got := x.Serialize(); !bytes.Equal(got, want) {
			t.Failf("transaction %s:\n serialized %x\n want       %x\n%s", short(*x), got, want, diffAt(got, want))
			return
		}
		if x.Size() != uint64(len(want)) {
			t.Failf("size of %x is %d", want, x.Size())
		}
		var y cryptonote.Transaction
		r := bytes.NewReader(want)
		if err := y.Deserialize(r); err != nil || r.Len() != 0 {
			t.Failf("transaction %x: %v, %d bytes left", want, err, r.Len())
			return
		}
		if !cn.Same(&y, x) {
			t.Failf("transaction %x is parsed as\n%s\nwant\n%s", want, short(y), short(*x))
		}
		t.Count("transactions round trips", 1)
	})
	c.Par("block cuts", c.N(80, 8000), func(t *mon.T) {
		b := cn.Block(cn.GenBlock(t.Rng, byte(1+t.I%5)))
		t.SetDesc("block %s", mon.Hex(b))
		step := 1 + len(b)/600
		for i := 0; i < len(b); i += step {
			judgeBlock(t, b[:i:i])
			x := append([]byte{}, b...)
			x[i] ^= 1 << uint(t.Rng.Intn(8))
			judgeBlock(t, x)
			if t.Failed() {
				return
			}
		}
		t.Distinct(b)
	})
	c.Par("transaction cuts", c.N(80, 8000), func(t *mon.T) {
		b := cn.Tx(cn.GenTx(t.Rng, t.Rng.Intn(5) == 0))
		t.SetDesc("transaction %s", mon.Hex(b))
		step := 1 + len(b)/600
		for i := 0; i < len(b); i += step {
			judgeTx(t, b[:i:i])
			x := append([]byte{}, b...)
			x[i] ^= 1 << uint(t.Rng.Intn(8))
			judgeTx(t, x)
			if t.Failed() {
				return
			}
		}
		t.Distinct(b)
	})
	c.Par("mangled", c.N(20000, 800000), func(t *mon.T) {
		var b []byte
		if t.I%2 == 0 {
			b = mangle(t.Rng, cn.Block(cn.GenBlock(t.Rng, byte(1+t.Rng.Intn(5)))))
			judgeBlock(t, b)
		} else {
			b = mangle(t.Rng, cn.Tx(cn.GenTx(t.Rng, t.Rng.Intn(5) == 0)))
			judgeTx(t, b)
		}
		t.Distinct(b)
	})
	// one variable for one after another, nothing of the former may stay
	c.Par("reused", c.N(1500, 60000), func(t *mon.T) {
		var x cryptonote.Block
		var y cryptonote.Transaction
		for k := 0; k < 8; k++ {
			src := cn.GenBlock(t.Rng, byte(1+t.Rng.Intn(5)))
			if t.Rng.Intn(3) == 0 {
				src.Timestamp, src.Nonce = 0, 0
				if src.Parent != nil {
					src.Parent.Timestamp, src.Parent.Nonce = 0, 0
				}
			}
			if t.Rng.Intn(4) == 0 {
				src.TransactionsHashes = nil
			}
			b := cn.Block(src)
			tx := cn.Tx(cn.GenTx(t.Rng, t.Rng.Intn(4) == 0))
			if t.Rng.Intn(4) == 0 { // fails somewhere
				b, tx = b[:t.Rng.Intn(len(b))], tx[:t.Rng.Intn(len(tx))]
			}
			t.SetDesc("block %s, transaction %s after others", mon.Hex(b), mon.Hex(tx))
			if want, rest, ok := cn.ParseBlock(b); x.Deserialize(bytes.NewReader(b)) == nil != ok {
				t.Failf("block %x into a used variable: right by the format: %v", b, ok)
			} else if ok {
				t.Count("used blocks", 1)
				if !cn.Same(&x, want) {
					t.Failf("block %x into a used variable is parsed as\n%s\nwant\n%s", b, short(x), short(*want))
				} else if s := x.Serialize(); !bytes.Equal(s, b[:len(b)-len(rest)]) {
					t.Failf("block %x into a used variable is serialized back as %x", b, s)
				} else if h, id := *x.Hash(), cn.ID(want); h != id {
					t.Failf("block %x in a used variable has the id %s, want %s", b, h.String(), id.String())
				}
			}
			if want, rest, ok := cn.ParseTx(tx); y.Deserialize(bytes.NewReader(tx)) == nil != ok {
				t.Failf("transaction %x into a used variable: right by the format: %v", tx, ok)
			} else if ok {
				t.Count("used transactions", 1)
				if !cn.Same(&y, want) {
					t.Failf("transaction %x into a used variable is parsed as\n%s\nwant\n%s", tx, short(y), short(*want))
				} else if s := y.Serialize(); !bytes.Equal(s, tx[:len(tx)-len(rest)]) {
					t.Failf("transaction %x into a used variable is serialized back as %x", tx, s)
				} else if h, id := *y.Hash(), keccak(tx[:len(tx)-len(rest)]); h != id {
					t.Failf("transaction %x in a used variable has the id %s, want %s", tx, h.String(), id.String())
				} else if h, id := *y.TransactionPrefix.Hash(), keccak(cn.Prefix(&want.TransactionPrefix)); h != id {
					t.Failf("transaction %x in a used variable has the prefix hash %s, want %s", tx, h.String(), id.String())
				}
			}
			if t.Failed() {
				return
			}
			t.Distinct(b, tx)
		}
	})
	// varints of every size, also redundant, in every place
	c.Par("varints", c.N(12000, 400000), func(t *mon.T) {
		vi := func(max int) []byte {
			v := gen.U64(t.Rng)
			switch t.Rng.Intn(4) {
			case 0:
				v = uint64(t.Rng.Intn(4))
			case 1:
				v = []uint64{255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<64 - 1}[t.Rng.Intn(7)]
			}
			if max > 0 && t.Rng.Intn(3) > 0 {
				v %= uint64(max)
			}
			b := cn.Uvarint(v)
			switch t.Rng.Intn(12) {
			case 0: // redundant
				b[len(b)-1] |= 0x80
				for k := t.Rng.Intn(3); k > 0; k-- {
					b = append(b, 0x80)
				}
				b = append(b, 0)
			case 1: // overflow
				b = append(bytes.Repeat([]byte{0xff}, 9), byte(t.Rng.Intn(4)))
			case 2:
				b = append(bytes.Repeat([]byte{0xff}, 9+t.Rng.Intn(3)), 1)
			}
			return b
		}
		cat := func(p ...[]byte) (r []byte) {
			for _, x := range p {
				r = append(r, x...)
			}
			return
		}
		var one []byte
		for _, x := range [][]byte{vi(256), vi(0)} { // version, unlock
			one = append(one, x...)
		}
		if t.Rng.Intn(2) == 0 {
			one = cat(one, []byte{1, 0xff}, vi(1<<32-1))
		} else {
			one = cat(one, []byte{1, 2}, vi(0), []byte{1}, vi(1<<32-1), make([]byte, 32))
		}
		tag := []byte{2}
		if t.Rng.Intn(8) == 0 {
			tag = []byte{0x82, 0}
		}
		one = cat(one, []byte{1}, vi(0), tag, make([]byte, 32))
		one = cat(one, []byte{0}, make([]byte, 64*t.Rng.Intn(2)))
		t.Distinct(one)
		judgeTx(t, one)
		v := byte(1 + t.Rng.Intn(6))
		blk := cat([]byte{v}, vi(256))
		if t.Rng.Intn(6) == 0 {
			blk = cat(vi(6), vi(256))
		}
		switch v {
		case 2, 3:
			count, k := vi(65536), t.Rng.Intn(3)
			if t.Rng.Intn(4) == 0 {
				n := []uint64{65535, 65536, 65537, 131071, 1 << 20, 1<<32 - 1, 1 << 32}[t.Rng.Intn(7)]
				count = cn.Uvarint(n)
				for k = 0; n > 1; n >>= 1 {
					k++
				}
			}
			blk = cat(blk, make([]byte, 32), vi(256), vi(256), vi(0), make([]byte, 36), count)
			blk = cat(blk, make([]byte, 32*k), []byte{1, 0, 1, 0xff, 0, 0, 35, 3, 33, 0}, make([]byte, 32))
		default:
			blk = cat(blk, vi(0), make([]byte, 36))
			if v == 5 {
				blk = cat(blk, make([]byte, 64))
			}
		}
		blk = cat(blk, []byte{1, 10, 1, 0xff}, vi(1<<32-1), []byte{0, 0})
		blk = cat(blk, vi(3), make([]byte, 32*t.Rng.Intn(3)))
		t.Distinct(blk)
		judgeBlock(t, blk)
	})
	c.Require("blocks of version 3", 100)
	c.Require("transactions round trips", 1000)
	c.Require("used blocks", 1000)
	c.Require("used transactions", 1000)
	c.Require("blocks accepted", 1000)
	c.Require("blocks refused", 1000)
	c.Require("transactions accepted", 1000)
	c.Require("transactions refused", 1000)
}
