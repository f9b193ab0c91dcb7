package main

import (
	"math/big"
	"math/rand"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

// limbs makes field element directly, inside the bounds that ref10 operations promise to accept.
func limbs(r *rand.Rand, scale float64) (f ed.FieldElement) {
	for i := range f {
		bits := uint(25)
		if i%2 == 1 {
			bits = 24
		}
		bound := int64(float64(int64(1)<<bits) * scale)
		switch r.Intn(5) {
		case 0:
			f[i] = int32(bound)
		case 1:
			f[i] = int32(-bound)
		case 2:
			f[i] = 0
		default:
			f[i] = int32(r.Int63n(2*bound+1) - bound)
		}
	}
	return
}

// feVal is the number the limbs stand for, radix 2^25.5.
func feVal(f ed.FieldElement) *big.Int {
	s := new(big.Int)
	for i := 9; i >= 0; i-- {
		t := new(big.Int).Lsh(big.NewInt(int64(f[i])), uint((51*i+1)/2))
		s.Add(s, t)
	}
	return s.Mod(s, ref.P)
}

func feOut(f ed.FieldElement) *big.Int {
	var b [32]byte
	ed.FeToBytes(&b, f)
	return ref.FromLE(b[:])
}

func toGe(p ref.Point) ed.ExtendedGroupElement {
	b := p.Bytes()
	g, err := ed.GeFromBytes(&b)
	if err != nil {
		panic("valid point is not decoded: " + mon.Hex(b[:]))
	}
	return *g
}

func checkC12(c *mon.Ctx) {
	c.Rule("Generated operands with boundary values (0, p, L multiples, 2^k, torsion points, non canonical encodings, limb bounds); " +
		"every result of the code is compared with math/big arithmetic on the definition of the curve. A case is non trivial when an operation " +
		"was compared on an operand set not seen before.")
	c.Assume("math/big and the reference implementation of the curve in harness/ref are right")

	// Field elements.
	c.Par("field", c.N(4000, 120000), func(t *mon.T) {
		f, g := limbs(t.Rng, 1.1), limbs(t.Rng, 1.1)
		fv, gv := feVal(f), feVal(g)
		t.Distinct(f, g)
		t.SetDesc("f=%v g=%v", f, g)
		cmp := func(op string, got ed.FieldElement, want *big.Int) {
			t.Count("field ops compared", 1)
			want = new(big.Int).Mod(want, ref.P)
			if o := feOut(got); o.Cmp(want) != 0 {
				t.Failf("%s: got %x want %x (f=%v g=%v)", op, o, want, f, g)
			}
		}
		var r ed.FieldElement
		cmp("FeToBytes", f, fv)
		ed.FeMul(&r, &f, &g)
		cmp("FeMul", r, new(big.Int).Mul(fv, gv))
		ed.FeSquare(&r, &f)
		cmp("FeSquare", r, new(big.Int).Mul(fv, fv))
		ed.FeSquare2(&r, &f)
		cmp("FeSquare2", r, new(big.Int).Lsh(new(big.Int).Mul(fv, fv), 1))
		ed.FeNeg(&r, &f)
		cmp("FeNeg", r, new(big.Int).Neg(fv))
		// sums of reduced values go to the multiplication, as in group operations
		var fr, gr, s, d ed.FieldElement
		var fb, gb [32]byte
		ed.FeToBytes(&fb, f)
		ed.FeToBytes(&gb, g)
		ed.FeFromBytes(&fr, &fb)
		ed.FeFromBytes(&gr, &gb)
		cmp("FeFromBytes", fr, fv)
		ed.FeAdd(&s, &fr, &gr)
		ed.FeSub(&d, &fr, &gr)
		ed.FeMul(&r, &s, &d)
		cmp("(f+g)*(f-g)", r, new(big.Int).Mul(new(big.Int).Add(fv, gv), new(big.Int).Sub(fv, gv)))
		ed.FeMul(&r, &s, &fr)
		cmp("(f+g)*f", r, new(big.Int).Mul(new(big.Int).Add(fv, gv), fv))
		// aliased output
		r = f
		ed.FeMul(&r, &r, &g)
		cmp("FeMul aliased", r, new(big.Int).Mul(fv, gv))
		if t.I%8 == 0 {
			ed.FeInvert(&r, &f)
			w := new(big.Int).ModInverse(fv, ref.P)
			if w == nil {
				w = new(big.Int)
			}
			cmp("FeInvert", r, w)
		}
		if n := ed.FeIsNegative(&f); uint(n) != fv.Bit(0) {
			t.Failf("FeIsNegative(%x) = %d", fv, n)
		}
		if nz := ed.FeIsNonZero(&f) != 0; nz != (fv.Sign() != 0) {
			t.Failf("FeIsNonZero(%x) = %v", fv, nz)
		}
		for _, b := range []int32{0, 1} {
			r = f
			ed.FeCMove(&r, &g, b)
			want := f
			if b == 1 {
				want = g
			}
			if r != want {
				t.Failf("FeCMove %d", b)
			}
		}
	})
	c.Par("field_bytes", c.N(2000, 60000), func(t *mon.T) {
		b := gen.Raw256(t.Rng)
		t.Distinct(b[:])
		var f ed.FieldElement
		ed.FeFromBytes(&f, &b)
		// all the 256 bits count, as hash to point needs
		want := new(big.Int).Mod(ref.FromLE(b[:]), ref.P)
		if got := feOut(f); got.Cmp(want) != 0 {
			t.Failf("FeFromBytes(%x): got %x want %x", b, got, want)
		}
		if nz := ed.FeIsNonZero(&f) != 0; nz != (want.Sign() != 0) {
			t.Failf("FeIsNonZero(%x) = %v", want, nz)
		}
		t.Count("field ops compared", 2)
	})

	// Scalars.
	c.Par("scalar", c.N(6000, 200000), func(t *mon.T) {
		x, y, z := gen.Raw256(t.Rng), gen.Raw256(t.Rng), gen.Raw256(t.Rng)
		if t.I%2 == 0 {
			x, y, z = gen.Scalar(t.Rng), gen.Scalar(t.Rng), gen.Scalar(t.Rng)
		}
		t.Distinct(x[:], y[:], z[:])
		xb, yb, zb := ref.FromLE(x[:]), ref.FromLE(y[:]), ref.FromLE(z[:])
		cmp := func(op string, got [32]byte, want *big.Int) {
			t.Count("scalar ops compared", 1)
			if w := ref.LE32(new(big.Int).Mod(want, ref.Order)); got != w {
				t.Failf("%s: got %x want %x, operands %x %x %x", op, got, w, x, y, z)
			}
		}
		cmp("ScReduce32", ed.ScReduce32(x), xb)
		var w [64]byte
		copy(w[:], x[:])
		copy(w[32:], y[:])
		cmp("ScReduce", ed.ScReduce(w), ref.FromLE(w[:]))
		x1, y1 := x, y
		cmp("ScAdd", ed.ScAdd(&x1, &y1), new(big.Int).Add(xb, yb))
		if x1 != x || y1 != y {
			t.Failf("ScAdd changed its operands")
		}
		cmp("ScSub", ed.ScSub(x, y), new(big.Int).Sub(xb, yb))
		cmp("ScMulSub", ed.ScMulSub(x, y, z), new(big.Int).Sub(zb, new(big.Int).Mul(xb, yb)))
		var s [32]byte
		ed.ScMulAdd(&s, &x, &y, &z)
		cmp("ScMulAdd", s, new(big.Int).Add(new(big.Int).Mul(xb, yb), zb))
		if got, want := ed.ScCheck(x), xb.Cmp(ref.Order) < 0; got != want {
			t.Failf("ScCheck(%x) = %v", x, got)
		}
		if got, want := ed.ScMinimal(&x), xb.Cmp(ref.Order) < 0; got != want {
			t.Failf("ScMinimal(%x) = %v", x, got)
		}
		if got, want := ed.ScIsNonZero(x), xb.Sign() != 0; got != want {
			t.Failf("ScIsNonZero(%x) = %v", x, got)
		}
		one := [32]byte{}
		one[t.I%32] = 1 << uint((t.I/32)%8)
		if !ed.ScIsNonZero(one) {
			t.Failf("ScIsNonZero(%x) = false", one)
		}
		if ed.ScZero() != [32]byte{} {
			t.Failf("ScZero is not zero")
		}
	})

	// Points decoding and encoding.
	c.Par("decode", c.N(3000, 80000), func(t *mon.T) {
		b := gen.PointBytes(t.Rng)
		t.Distinct(b[:])
		want, ok := ref.Decode(b)
		in := b
		var e ed.ExtendedGroupElement
		got := e.FromBytes(&in)
		g2, err := ed.GeFromBytes(&in)
		if got != ok || (err == nil) != ok {
			t.Failf("decode of %x: FromBytes %v, GeFromBytes error %v, want valid %v", b, got, err, ok)
			return
		}
		if in != b {
			t.Failf("decode changed its input")
		}
		if !ok {
			t.Count("invalid encodings rejected", 1)
			return
		}
		t.Count("valid encodings decoded", 1)
		for _, o := range []*ed.ExtendedGroupElement{&e, g2} {
			if o.ToBytes() != b {
				t.Failf("decoded point %x is encoded as %x", b, o.ToBytes())
			}
		}
		var d ed.CompletedGroupElement
		var p ed.ProjectiveGroupElement
		var e2 ed.ExtendedGroupElement
		e.Double(&d)
		d.ToProjective(&p)
		d.ToExtended(&e2)
		wb := want.Add(want).Bytes()
		if p.ToBytes() != wb || e2.ToBytes() != wb {
			t.Failf("double of %x: %x, %x want %x", b, p.ToBytes(), e2.ToBytes(), wb)
		}
	})

	// Group operations.
	c.Par("group", c.N(900, 30000), func(t *mon.T) {
		P, Q := gen.Point(t.Rng), gen.Point(t.Rng)
		if t.I%7 == 0 {
			Q = P
		} else if t.I%7 == 1 {
			Q = P.Neg()
		}
		a, b := gen.Scalar(t.Rng), gen.Scalar(t.Rng)
		an, bn := ref.FromLE(a[:]), ref.FromLE(b[:])
		pb, qb := P.Bytes(), Q.Bytes()
		t.Distinct(pb[:], qb[:], a[:], b[:])
		t.SetDesc("P=%x Q=%x a=%x b=%x", pb, qb, a, b)
		p, q := toGe(P), toGe(Q)
		cmp := func(op string, got [32]byte, want ref.Point) {
			t.Count("group ops compared", 1)
			if w := want.Bytes(); got != w {
				t.Failf("%s: got %x want %x; P=%x Q=%x a=%x b=%x", op, got, w, pb, qb, a, b)
			}
		}
		var ca ed.CachedGroupElement
		var cm ed.CompletedGroupElement
		var pr ed.ProjectiveGroupElement
		var ex ed.ExtendedGroupElement
		q.ToCached(&ca)
		ed.GeAdd(&cm, &p, &ca)
		cm.ToProjective(&pr)
		cmp("P+Q", pr.ToBytes(), P.Add(Q))
		cm.ToExtended(&ex)
		cmp("P+Q extended", ex.ToBytes(), P.Add(Q))
		// the extended result is used again, T must be right too
		ex.ToCached(&ca)
		ed.GeAdd(&cm, &p, &ca)
		cm.ToProjective(&pr)
		cmp("P+(P+Q)", pr.ToBytes(), P.Add(P).Add(Q))
		q.ToCached(&ca)
		ed.GeSub(&cm, &p, &ca)
		cm.ToProjective(&pr)
		cmp("P-Q", pr.ToBytes(), P.Add(Q.Neg()))
		p.ToProjective(&pr)
		ed.GeMul8(&cm, &pr)
		cm.ToExtended(&ex)
		cmp("8P", ex.ToBytes(), P.Mul(big.NewInt(8)))
		r := ed.GeScalarMult(&a, &p)
		cmp("aP", r.ToBytes(), P.Mul(an))
		ed.GeScalarMultBase(&ex, &a)
		aG := ref.Base.Mul(an)
		cmp("aG", ex.ToBytes(), aG)
		ed.GeDoubleScalarMultBaseVartime(&pr, &a, &p, &b)
		cmp("aP+bG", pr.ToBytes(), P.Mul(an).Add(ref.Base.Mul(bn)))
		ed.GeDoubleScalarMultPrecompVartime(&pr, &a, &p, &b, ed.GeDSMPreComp(&q))
		cmp("aP+bQ", pr.ToBytes(), P.Mul(an).Add(Q.Mul(bn)))
		in := ed.GeCheckSubGroupPreCompVartime(ed.GeDSMPreComp(&p)) == 0
		if want := P.InSubgroup(); in != want {
			t.Failf("subgroup check of %x: %v want %v", pb, in, want)
		} else if want {
			t.Count("subgroup points accepted", 1)
		} else {
			t.Count("torsion points detected", 1)
		}
		t.Sample(map[string]string{"P": mon.Hex(pb[:]), "Q": mon.Hex(qb[:]), "a": mon.Hex(a[:]), "b": mon.Hex(b[:])})
	})
	// Scalar multiplication where scalars are not reduced but inside of the documented precondition.
	c.Par("wide_scalar", c.N(300, 10000), func(t *mon.T) {
		P := gen.Point(t.Rng)
		a := gen.Raw256(t.Rng)
		a[31] &= 127
		n := ref.FromLE(a[:])
		pb := P.Bytes()
		t.Distinct(pb[:], a[:])
		p := toGe(P)
		var ex ed.ExtendedGroupElement
		ed.GeScalarMultBase(&ex, &a)
		if got, w := ex.ToBytes(), ref.Base.Mul(n).Bytes(); got != w {
			t.Failf("aG for a=%x: got %x want %x", a, got, w)
		}
		r := ed.GeScalarMult(&a, &p)
		if got, w := r.ToBytes(), P.Mul(n).Bytes(); got != w {
			t.Failf("aP for a=%x P=%x: got %x want %x", a, pb, got, w)
		}
		t.Count("group ops compared", 2)
	})
	// All the digits of the fixed base table.
	c.Par("base_digits", 32*16, func(t *mon.T) {
		var a [32]byte
		pos, v := t.I/16, t.I%16
		a[pos] = byte(v) | byte(t.Rng.Intn(16))<<4
		if pos == 31 {
			a[31] &= 127
		}
		t.Distinct(a[:])
		var ex ed.ExtendedGroupElement
		ed.GeScalarMultBase(&ex, &a)
		if got, w := ex.ToBytes(), ref.Base.Mul(ref.FromLE(a[:])).Bytes(); got != w {
			t.Failf("aG for a=%x: got %x want %x", a, got, w)
		}
		var p ed.ProjectiveGroupElement
		e := toGe(ref.Base)
		zero := [32]byte{}
		b := a
		b[31] &= 15
		ed.GeDoubleScalarMultBaseVartime(&p, &zero, &e, &b)
		if got, w := p.ToBytes(), ref.Base.Mul(ref.FromLE(b[:])).Bytes(); got != w {
			t.Failf("0A+bG for b=%x: got %x want %x", b, got, w)
		}
		t.Count("group ops compared", 2)
	})
	// Hash to point.
	c.Par("map_to_point", c.N(600, 20000), func(t *mon.T) {
		h := gen.Raw256(t.Rng)
		t.Distinct(h[:])
		var p ed.ProjectiveGroupElement
		in := h
		err := p.FromBytes(&in)
		if err != nil {
			t.Failf("hash %x is not mapped to a point: %v", h, err)
			return
		}
		if got, w := p.ToBytes(), ref.Elligator(h).Bytes(); got != w {
			t.Failf("map of %x: got %x want %x", h, got, w)
			return
		}
		var cm ed.CompletedGroupElement
		var ex ed.ExtendedGroupElement
		ed.GeMul8(&cm, &p)
		cm.ToExtended(&ex)
		if ed.GeCheckSubGroupPreCompVartime(ed.GeDSMPreComp(&ex)) != 0 {
			t.Failf("hash %x is mapped outside of the subgroup", h)
		}
		t.Count("hash to point compared", 1)
		hookHash(t, h)
	})
	for k, v := range map[string]int64{"field ops compared": 20000, "scalar ops compared": 20000, "group ops compared": 5000,
		"invalid encodings rejected": 300, "valid encodings decoded": 1000, "subgroup points accepted": 200, "torsion points detected": 100,
		"hash to point compared": 500} {
		c.Require(k, v)
	}
}
