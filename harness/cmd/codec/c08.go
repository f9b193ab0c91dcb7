package main

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
)

func judgeExtra(t *mon.T, b []byte) {
	w, ok := cn.ParseExtra(b)
	keep := append([]byte{}, b...)
	e, err := cryptonote.TxExtraFromBytes(b)
	tp := cryptonote.TransactionPrefix{Extra: b}
	e2, err2 := tp.ParseExtra()
	if !bytes.Equal(keep, b) {
		t.Failf("parsing changed the extra %x", keep)
	}
	if (err == nil) != (err2 == nil) || err == nil && !cn.Same(e, e2) {
		t.Failf("extra %x is parsed in two ways: %v %v, %v %v", b, e, err, e2, err2)
	}
	if w.Unsure {
		t.Count("ambiguous", 1)
		return
	}
	if ok != (err == nil) {
		t.Failf("extra %x: right by the format: %v, parsed: %v", b, ok, err)
		return
	}
	if !ok {
		t.Count("refused", 1)
		return
	}
	t.Count("accepted", 1)
	if [32]byte(e.PublicKey) != w.PublicKey || !bytes.Equal(e.Nonce, w.Nonce) || !cn.Same(e.MiningTag, w.Tag) {
		t.Failf("extra %x is parsed as key %x nonce %x tag %v, want %+v", b, e.PublicKey, e.Nonce, e.MiningTag, w)
	}
}

func checkC08(c *mon.Ctx) {
	c.Rule("Extra fields are put together from fields in any order, repeated, cut, with sizes around the limits and redundant or overflown varints, and mangled; " +
		"verdict and fields are compared with a reference parser. A case is non trivial when its bytes were not seen before.")
	c.Assume("the last of repeated fields counts; length of padding at the very limit is not judged")

	c.Par("fields", c.N(30000, 1200000), func(t *mon.T) {
		var b []byte
		for k := t.Rng.Intn(5); k > 0; k-- {
			switch t.Rng.Intn(4) {
			case 0:
				b = append(b, 1)
				b = append(b, gen.Bytes(t.Rng, 32)...)
			case 1:
				n := []int{0, 1, 9, 33, 126, 127, 128, 254, 255, 256, 257, 300}[t.Rng.Intn(12)]
				b = append(b, 2)
				b = append(b, cn.Uvarint(uint64(n))...)
				b = append(b, gen.Bytes(t.Rng, n)...)
			case 2:
				d := []int{0, 1, 126, 127}[t.Rng.Intn(4)]
				b = append(b, 3)
				b = append(b, cn.Tag(t.Rng, d)...)
			case 3:
				// tag of other sizes
				n := []uint64{0, 32, 33, 34, 35, 66, 1 << 33}[t.Rng.Intn(7)]
				b = append(b, 3)
				b = append(b, cn.Uvarint(n)...)
				b = append(b, cn.Uvarint(gen.U64(t.Rng))...)
				b = append(b, gen.Bytes(t.Rng, 32)...)
			}
		}
		switch t.Rng.Intn(5) {
		case 0:
			b = append(b, make([]byte, t.Rng.Intn(300))...)
		case 1:
			b = append(b, byte(t.Rng.Intn(256)))
		case 2: // redundant or overflown size
			v := cn.Uvarint(gen.U64(t.Rng) % 300)
			v[len(v)-1] |= 0x80
			v = append(append(v, bytes.Repeat([]byte{0x80}, t.Rng.Intn(10))...), byte(t.Rng.Intn(3)))
			b = append(append(b, byte(2+t.Rng.Intn(2))), v...)
			b = append(b, gen.Bytes(t.Rng, t.Rng.Intn(300))...)
		}
		switch t.Rng.Intn(4) {
		case 0:
			b = mangle(t.Rng, b)
		case 1:
			b = b[:t.Rng.Intn(len(b)+1)]
		}
		t.Distinct(b)
		t.SetDesc("extra %x", b)
		judgeExtra(t, b)
	})
	c.Par("every cut", c.N(400, 10000), func(t *mon.T) {
		b := cn.GenExtra(t.Rng, t.Rng.Intn(3)-1)
		t.SetDesc("extra %x", b)
		for i := 0; i <= len(b); i++ {
			judgeExtra(t, b[:i:i])
		}
		t.Distinct(b)
	})
	c.Par("nonces of every size", 520, func(t *mon.T) {
		n := t.I
		d := gen.Bytes(t.Rng, n)
		b := append(append([]byte{2}, cn.Uvarint(uint64(n))...), d...)
		t.Distinct(b)
		judgeExtra(t, b)
		judgeExtra(t, append(b, 1))
		judgeExtra(t, append(append([]byte{}, b...), append([]byte{1}, gen.Bytes(t.Rng, 32)...)...))
		judgeExtra(t, append([]byte{}, make([]byte, n)...))
		x := make([]byte, n+2)
		x[t.Rng.Intn(n+1)+1] = byte(1 + t.Rng.Intn(255))
		judgeExtra(t, x)
	})
	c.Par("short", c.N(66000, 66000), func(t *mon.T) {
		b := []byte{byte(t.I), byte(t.I >> 8)}
		if t.I >= 65536 {
			b = b[:(t.I-65536)%2]
		}
		judgeExtra(t, b)
		judgeExtra(t, append(b, 0))
	})
	c.Require("accepted", 5000)
	c.Require("refused", 5000)
}
