package main

import (
	"math/big"
	"math/rand"
	"sort"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/utils"
	"verifharness/gen"
	"verifharness/mon"
)

func amount(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0: // few digits
		v := uint64(0)
		for k := r.Intn(4); k >= 0; k-- {
			d, o := uint64(r.Intn(10)), uint64(1)
			for i := r.Intn(20); i > 0; i-- {
				o *= 10
			}
			v += d * o
		}
		return v
	case 1: // near power of ten
		o := uint64(1)
		for i := r.Intn(20); i > 0; i-- {
			o *= 10
		}
		return o*uint64(1+r.Intn(9)) + uint64(r.Intn(5)) - 2
	default:
		return gen.U64(r)
	}
}

// pretty is one digit followed by zeros.
func pretty(v uint64) bool {
	if v == 0 {
		return false
	}
	for v%10 == 0 {
		v /= 10
	}
	return v < 10
}

func checkC24(c *mon.Ctx) {
	c.Rule("Amounts around powers of ten and two with all kinds of thresholds are split; 128 bit products and quotients, medians, clamps and " +
		"slice predicates of edge operands are compared with math/big and definitions. A case is non trivial when its operands were not seen before.")
	c.Assume("median of an even number of values over 2^63 is not judged (their sum does not fit); sorting and reversing in place is how MedianSlice and SliceReverse are used")

	split := func(t *mon.T, a, dust uint64) {
		chunks, dusts := cryptonote.DecomposeAmountIntoDigits(a, dust)
		sum := new(big.Int)
		last := uint64(0)
		for _, x := range chunks {
			sum.Add(sum, new(big.Int).SetUint64(x))
			if !pretty(x) {
				t.Failf("%d with threshold %d is split into %v: %d is not a denomination", a, dust, chunks, x)
			}
			if x <= last {
				t.Failf("%d with threshold %d is split into %v: wrong order", a, dust, chunks)
			}
			last = x
		}
		if len(dusts) > 1 {
			t.Failf("%d with threshold %d has dusts %v", a, dust, dusts)
		}
		for _, x := range dusts {
			sum.Add(sum, new(big.Int).SetUint64(x))
			if x > dust || x == 0 {
				t.Failf("%d with threshold %d has dust %d", a, dust, x)
			}
		}
		if sum.Cmp(new(big.Int).SetUint64(a)) != 0 {
			t.Failf("%d with threshold %d is split into %v and %v, it is %v", a, dust, chunks, dusts, sum)
		}
		// greedy from the lowest digit
		var wc []uint64
		wd, v, o := uint64(0), a, uint64(1)
		for ; v != 0; v /= 10 {
			x := v % 10 * o
			o *= 10
			if new(big.Int).Add(new(big.Int).SetUint64(wd), new(big.Int).SetUint64(x)).Cmp(new(big.Int).SetUint64(dust)) <= 0 {
				wd += x
			} else if x != 0 {
				wc = append(wc, x)
			}
		}
		gd := uint64(0)
		if len(dusts) == 1 {
			gd = dusts[0]
		}
		if gd != wd || len(wc) != len(chunks) {
			t.Failf("%d with threshold %d is split into %v and %v, want %v and %d", a, dust, chunks, dusts, wc, wd)
			return
		}
		for i := range wc {
			if wc[i] != chunks[i] {
				t.Failf("%d with threshold %d is split into %v, want %v", a, dust, chunks, wc)
			}
		}
		t.Count("amounts split", 1)
	}
	c.Par("decomposition", c.N(60000, 3000000), func(t *mon.T) {
		a, dust := amount(t.Rng), uint64(0)
		switch t.Rng.Intn(4) {
		case 0:
			dust = amount(t.Rng)
		case 1:
			dust = 100000000
		case 2:
			dust = 1000000
		}
		t.Distinct(a, dust)
		t.SetDesc("%d %d", a, dust)
		split(t, a, dust)
	})
	c.Seq("small amounts", 1, func(t *mon.T) {
		for a := uint64(0); a < 3000; a++ {
			for _, d := range []uint64{0, 1, 5, 9, 10, 11, 99, 100, 1000} {
				split(t, a, d)
			}
		}
	})
	c.Seq("denominations", 1, func(t *mon.T) {
		known := map[uint64]bool{}
		last := uint64(0)
		for _, x := range config.PrettyAmounts {
			if x <= last {
				t.Failf("denominations are not in order: %d after %d", x, last)
			}
			last = x
			known[x] = true
			if !pretty(x) {
				t.Failf("%d is not a denomination", x)
			}
		}
		for o, k := uint64(1), 0; k < 20; o, k = o*10, k+1 {
			for d := uint64(1); d <= 9; d++ {
				v := new(big.Int).Mul(new(big.Int).SetUint64(o), new(big.Int).SetUint64(d))
				if v.IsUint64() && !known[v.Uint64()] {
					t.Failf("denomination %v is missing", v)
				}
				t.Count("denominations", 1)
			}
		}
	})
	b := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	edge := func(r *rand.Rand) uint64 {
		if r.Intn(3) == 0 {
			h, l := []uint64{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, uint64(r.Uint32())}[r.Intn(7)], []uint64{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, uint64(r.Uint32())}[r.Intn(7)]
			return h<<32 | l
		}
		return gen.U64(r)
	}
	c.Par("products", c.N(150000, 8000000), func(t *mon.T) {
		x, y := edge(t.Rng), edge(t.Rng)
		t.Distinct("mul", x, y)
		lo, hi := utils.Mul128(x, y)
		g := new(big.Int).Add(new(big.Int).Lsh(b(hi), 64), b(lo))
		if w := new(big.Int).Mul(b(x), b(y)); g.Cmp(w) != 0 {
			t.Failf("%d * %d = %v, want %v", x, y, g, w)
		}
		t.Count("products", 1)
		d := gen.U32(t.Rng)
		if t.Rng.Intn(3) == 0 {
			d = uint32(edge(t.Rng))
		}
		if d == 0 {
			d = 1
		}
		qlo, qhi := utils.Div128p32(x, y, d)
		g = new(big.Int).Add(new(big.Int).Lsh(b(qhi), 64), b(qlo))
		n := new(big.Int).Add(new(big.Int).Lsh(b(x), 64), b(y))
		if w := new(big.Int).Div(n, b(uint64(d))); g.Cmp(w) != 0 {
			t.Failf("%v / %d = %v, want %v", n, d, g, w)
		}
		t.Count("quotients", 1)
	})
	c.Par("order", c.N(60000, 2000000), func(t *mon.T) {
		n := t.Rng.Intn(20)
		if t.Rng.Intn(20) == 0 {
			n = 100 + t.Rng.Intn(2)
		}
		s := make([]uint64, n)
		for i := range s {
			s[i] = gen.U64(t.Rng) >> 1
			if t.Rng.Intn(2) == 0 {
				s[i] = uint64(t.Rng.Intn(5))
			}
		}
		t.Distinct("median", s)
		o := append([]uint64{}, s...)
		sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
		w := uint64(0)
		if n > 0 {
			w = (o[(n-1)/2] + o[n/2]) / 2
		}
		if g := utils.MedianSlice(append([]uint64{}, s...)); g != w {
			t.Failf("median of %v is %d, want %d", s, g, w)
		}
		r := utils.SliceReverse(append([]uint64{}, s...))
		if len(r) != n {
			t.Failf("reverse of %v is %v", s, r)
		}
		for i := range r {
			if r[i] != s[n-1-i] {
				t.Failf("reverse of %v is %v", s, r)
				break
			}
		}
		u := make([]uint32, t.Rng.Intn(12))
		for i := range u {
			u[i] = gen.U32(t.Rng)
			if t.Rng.Intn(2) == 0 {
				u[i] = uint32(t.Rng.Intn(12))
			}
		}
		if t.Rng.Intn(2) == 0 {
			sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
		}
		keep := append([]uint32{}, u...)
		uniq, sorted := true, true
		for i := range u {
			for j := 0; j < i; j++ {
				if u[i] == u[j] {
					uniq = false
				}
			}
			if i > 0 && u[i] < u[i-1] {
				sorted = false
			}
		}
		if g := utils.SliceIsUniqueUint32(&u); g != uniq {
			t.Failf("%v is unique: %v", keep, g)
		}
		if g := utils.SliceIsSortedUint32(&u); g != sorted {
			t.Failf("%v is sorted: %v", keep, g)
		}
		for i := range u {
			if u[i] != keep[i] {
				t.Failf("predicates changed %v to %v", keep, u)
				break
			}
		}
		x, y, z := int64(edge(t.Rng)), int64(edge(t.Rng)), int64(edge(t.Rng))
		if x > z {
			x, z = z, x
		}
		want := y
		if y < x {
			want = x
		}
		if y > z {
			want = z
		}
		if g := utils.ClampInt64(x, y, z); g != want {
			t.Failf("clamp of %d to %d..%d is %d", y, x, z, g)
		}
		lo, hi := x, y
		if lo > hi {
			lo, hi = hi, lo
		}
		if utils.MinInt64(x, y) != lo || utils.MaxInt64(x, y) != hi || utils.MinInt64(y, x) != lo || utils.MaxInt64(y, x) != hi {
			t.Failf("min and max of %d, %d", x, y)
		}
		p, q := uint64(x), uint64(y)
		if p > q {
			p, q = q, p
		}
		if utils.MinUint64(p, q) != p || utils.MaxUint64(p, q) != q || utils.MinUint64(q, p) != p || utils.MaxUint64(q, p) != q {
			t.Failf("min and max of %d, %d", p, q)
		}
		t.Count("slices", 1)
	})
	c.Require("amounts split", 50000)
	c.Require("products", 50000)
	c.Require("denominations", 180)
}
