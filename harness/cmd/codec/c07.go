package main

import (
	"bytes"
	"math/rand"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto/base58"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func sealed(b []byte) string {
	h := ref.Keccak(b)
	return refEncode(append(append([]byte{}, b...), h[:4]...))
}

// openAddress is a reference verdict about the text.
func openAddress(s string) (tag uint64, data []byte, ok bool) {
	b, ok := refDecode(s)
	if !ok || len(b) <= 4 {
		return 0, nil, false
	}
	body := b[:len(b)-4]
	h := ref.Keccak(body)
	if !bytes.Equal(h[:4], b[len(b)-4:]) {
		return 0, nil, false
	}
	for i, x := range body {
		if i == 9 && x > 1 || i > 9 {
			return 0, nil, false
		}
		tag |= uint64(x&0x7f) << (7 * uint(i))
		if x < 0x80 {
			if i > 0 && x == 0 {
				return 0, nil, false
			}
			return tag, body[i+1:], true
		}
	}
	return 0, nil, false
}

func judgeAddress(t *mon.T, s string) bool {
	tag, data, ok := openAddress(s)
	if haveAddress {
		g, d, err := addrDecode(s)
		if ok != (err == nil) || ok && (g != tag || !bytes.Equal(d, data)) {
			t.Failf("text %q: right %v (tag %d, %x), decoded as %d, %x, %v", s, ok, tag, data, g, d, err)
			return false
		}
	}
	ok = ok && len(data) == 64
	var a cryptonote.Address
	err := a.FromString(s)
	if ok != (err == nil) {
		t.Failf("address %q: right %v, read: %v", s, ok, err)
		return false
	}
	if !ok {
		t.Count("texts refused", 1)
		return false
	}
	t.Count("texts accepted", 1)
	if a.Tag != tag || !bytes.Equal(append(append([]byte{}, a.SpendPublicKey[:]...), a.ViewPublicKey[:]...), data) {
		t.Failf("address %q is read as %d %x %x, want %d %x", s, a.Tag, a.SpendPublicKey, a.ViewPublicKey, tag, data)
	}
	b := cryptonote.NewAddress(a.Tag, a.SpendPublicKey, a.ViewPublicKey)
	if g := b.Base58(); g != s || a.Base58() != s {
		t.Failf("address %q is written back as %q and %q", s, g, a.Base58())
	}
	return true
}

func randText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = b58[r.Intn(58)]
	}
	return string(b)
}

func alter(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(2); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0, 1, 2:
			b[i] = b58[r.Intn(58)]
		case 3:
			b[i] = byte(r.Intn(256))
		case 4:
			b = append(b[:i:i], b[i+1:]...)
		case 5:
			b = append(b[:i:i], append([]byte{b58[r.Intn(58)]}, b[i:]...)...)
		case 6:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 7:
			b = append(b, []byte(" \n\x001z")[r.Intn(5)])
		}
	}
	return string(b)
}

func checkC07(c *mon.Ctx) {
	c.Rule("Addresses with tags of every size and byte strings of every length are encoded and decoded; texts are altered, cut, given characters " +
		"outside of the alphabet and values over the block, and sealed with right checksums over wrong content. Verdicts and contents are compared " +
		"with a math/big codec. A case is non trivial when its text was not seen before.")
	c.Assume("keys of an address are any 32 bytes: whether they are curve points is decided when they are used")

	c.Par("addresses", c.N(6000, 200000), func(t *mon.T) {
		tag := gen.U64(t.Rng)
		if t.Rng.Intn(3) == 0 {
			tag = config.MainNet().PublicAddressBase58Prefix
		}
		s, v := gen.B32(t.Rng), gen.B32(t.Rng)
		if t.Rng.Intn(10) == 0 {
			s = [32]byte{}
		}
		if t.Rng.Intn(10) == 0 {
			for i := range v {
				v[i] = 0xff
			}
		}
		want := sealed(append(append(cn.Uvarint(tag), s[:]...), v[:]...))
		t.Distinct(want)
		t.SetDesc("tag %d keys %x %x", tag, s, v)
		a := cryptonote.NewAddress(tag, s, v)
		if g := a.Base58(); g != want || a.Base58() != want {
			t.Failf("address %d %x %x is %q, want %q", tag, s, v, g, want)
			return
		}
		if !judgeAddress(t, want) {
			t.Failf("address %q is refused", want)
		}
		for k := 0; k < 6; k++ {
			if x := alter(t.Rng, want); x != want && judgeAddress(t, x) {
				t.Failf("altered address %q (%q) is accepted", x, want)
			}
			t.Count("altered addresses", 1)
		}
		// object used again for another address
		b := a
		s2 := sealed(append(append(cn.Uvarint(tag+1), v[:]...), s[:]...))
		if err := b.FromString(s2); err != nil || b.Base58() != s2 || b.SpendPublicKey != v {
			t.Failf("address read over another one: %v %q, want %q", err, b.Base58(), s2)
		}
	})
	c.Par("every character", c.N(60, 1000), func(t *mon.T) {
		d := append(cn.Uvarint(gen.U64(t.Rng)), gen.Bytes(t.Rng, 64)...)
		s := sealed(d)
		for i := 0; i < len(s); i++ {
			x := []byte(s)
			for x[i] == s[i] {
				x[i] = b58[t.Rng.Intn(58)]
			}
			if judgeAddress(t, string(x)) {
				t.Failf("address %q altered at %d is accepted", s, i)
			}
			t.Count("altered addresses", 1)
		}
		for i := 0; i < len(s); i++ {
			if judgeAddress(t, s[:i]) {
				t.Failf("address %q cut to %d is accepted", s, i)
			}
		}
	})
	// right checksum, wrong content
	c.Par("sealed", c.N(6000, 200000), func(t *mon.T) {
		var d []byte
		switch t.Rng.Intn(5) {
		case 0:
			d = append(cn.Uvarint(gen.U64(t.Rng)), gen.Bytes(t.Rng, []int{0, 1, 62, 63, 64, 65, 66, 128}[t.Rng.Intn(8)])...)
		case 1: // redundant tag
			v := cn.Uvarint(gen.U64(t.Rng))
			v[len(v)-1] |= 0x80
			v = append(v, bytes.Repeat([]byte{0x80}, t.Rng.Intn(3))...)
			d = append(append(v, 0), gen.Bytes(t.Rng, 64)...)
		case 2: // tag over 64 bits
			d = append(append(bytes.Repeat([]byte{0xff}, 9), byte(t.Rng.Intn(4))), gen.Bytes(t.Rng, 64)...)
		case 3: // tag does not end
			d = bytes.Repeat([]byte{0x80 | byte(t.Rng.Intn(128))}, 1+t.Rng.Intn(70))
		case 4:
			d = gen.Bytes(t.Rng, t.Rng.Intn(80))
		}
		s := sealed(d)
		t.Distinct(s)
		t.SetDesc("content %x text %q", d, s)
		judgeAddress(t, s)
		if haveAddress && len(d) > 0 {
			tag := gen.U64(t.Rng)
			if g, w := addrEncode(tag, d), sealed(append(cn.Uvarint(tag), d...)); g != w {
				t.Failf("content %x with tag %d is encoded as %q, want %q", d, tag, g, w)
			}
		}
		t.Count("sealed contents", 1)
	})
	c.Par("base58", c.N(20000, 800000), func(t *mon.T) {
		b := gen.Bytes(t.Rng, t.Rng.Intn(40))
		switch t.Rng.Intn(6) {
		case 0:
			b = make([]byte, len(b))
		case 1:
			b = bytes.Repeat([]byte{0xff}, len(b))
		case 2:
			for i := 0; i < len(b) && i < 1+t.Rng.Intn(8); i++ {
				b[i] = 0
			}
		}
		t.Distinct("bytes", b)
		t.SetDesc("%x", b)
		keep := append([]byte{}, b...)
		want := refEncode(b)
		if g := base58.Encode(b); g != want || !bytes.Equal(keep, b) {
			t.Failf("base58 of %x is %q, want %q", keep, g, want)
		}
		if g, err := base58.Decode(want); err != nil || !bytes.Equal(g, b) {
			t.Failf("base58 %q is decoded as %x, %v, want %x", want, g, err, b)
		}
		// any text
		s := randText(t.Rng, t.Rng.Intn(36))
		switch t.Rng.Intn(4) {
		case 0:
			s = alter(t.Rng, want)
		case 1: // at the top of the block
			n := 1 + t.Rng.Intn(8)
			x := []byte(refEncode(bytes.Repeat([]byte{0xff}, n)))
			for i := 1 + t.Rng.Intn(2); i > 0; i-- {
				x[len(x)-i] = b58[t.Rng.Intn(58)]
			}
			s = string(x)
			if t.Rng.Intn(2) == 0 {
				s = refEncode(gen.Bytes(t.Rng, 8*t.Rng.Intn(2))) + s
			}
		}
		g, err := base58.Decode(s)
		w, ok := refDecode(s)
		if ok != (err == nil) || ok && !bytes.Equal(g, w) {
			t.Failf("text %q: right %v %x, decoded %x, %v", s, ok, w, g, err)
		}
		t.Count("texts", 1)
		if !ok {
			t.Count("wrong texts", 1)
		}
	})
	// every pair of the smallest blocks and every value of the smallest content
	c.Seq("small blocks", 3, func(t *mon.T) {
		if t.I == 2 {
			for v := 0; v < 1<<16; v++ {
				b := []byte{byte(v >> 8), byte(v)}
				w := refEncode(b)
				if g := base58.Encode(b); g != w {
					t.Failf("base58 of %x is %q, want %q", b, g, w)
					return
				}
			}
			t.Count("small contents", 1<<16)
			return
		}
		n := 2 + t.I
		idx := make([]int, n)
		for {
			x := make([]byte, n)
			for i := range x {
				x[i] = b58[idx[i]]
			}
			w, ok := refDecode(string(x))
			if g, err := base58.Decode(string(x)); ok != (err == nil) || ok && !bytes.Equal(g, w) {
				t.Failf("text %q: right %v %x, decoded %x, %v", x, ok, w, g, err)
				return
			}
			t.Count("small texts", 1)
			i := 0
			for ; i < n; i++ {
				if idx[i]++; idx[i] < 58 {
					break
				}
				idx[i] = 0
			}
			if i == n {
				return
			}
		}
	})
	c.Require("texts accepted", 2000)
	c.Require("texts refused", 10000)
	c.Require("wrong texts", 2000)
	c.Require("small texts", 3000)
}
