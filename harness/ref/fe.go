package ref

import (
	"math/big"
	"math/bits"
)

// fe is a number modulo 2^255-19 below 2^256, for the multiplication of points only. MulSlow is its reference.
type fe [4]uint64

func toFe(n *big.Int) (r fe) {
	b := LE32(new(big.Int).Mod(n, P))
	for i := range r {
		for j := 7; j >= 0; j-- {
			r[i] = r[i]<<8 | uint64(b[8*i+j])
		}
	}
	return
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := range a {
		for j := 0; j < 8; j++ {
			b[8*i+j] = byte(a[i] >> uint(8*j))
		}
	}
	n := FromLE(b[:])
	return n.Mod(n, P)
}

// fold adds c*2^256 = c*38.
func (a *fe) fold(c uint64) {
	for c != 0 {
		h, l := bits.Mul64(c, 38)
		var k uint64
		a[0], k = bits.Add64(a[0], l, 0)
		a[1], k = bits.Add64(a[1], h, k)
		a[2], k = bits.Add64(a[2], 0, k)
		a[3], c = bits.Add64(a[3], 0, k)
	}
}

func feAdd(a, b fe) (r fe) {
	var k uint64
	r[0], k = bits.Add64(a[0], b[0], 0)
	r[1], k = bits.Add64(a[1], b[1], k)
	r[2], k = bits.Add64(a[2], b[2], k)
	r[3], k = bits.Add64(a[3], b[3], k)
	r.fold(k)
	return
}

func feSub(a, b fe) (r fe) {
	var k uint64
	r[0], k = bits.Sub64(a[0], b[0], 0)
	r[1], k = bits.Sub64(a[1], b[1], k)
	r[2], k = bits.Sub64(a[2], b[2], k)
	r[3], k = bits.Sub64(a[3], b[3], k)
	for k != 0 { // minus 2^256 is minus 38
		r[0], k = bits.Sub64(r[0], 38, 0)
		r[1], k = bits.Sub64(r[1], 0, k)
		r[2], k = bits.Sub64(r[2], 0, k)
		r[3], k = bits.Sub64(r[3], 0, k)
	}
	return
}

func feMul(a, b *fe) (r fe) {
	var w [8]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			h, l := bits.Mul64(a[i], b[j])
			var k uint64
			l, k = bits.Add64(l, w[i+j], 0)
			h += k
			l, k = bits.Add64(l, c, 0)
			c = h + k
			w[i+j] = l
		}
		w[i+4] = c
	}
	// low + 38 high
	var c uint64
	for i := 0; i < 4; i++ {
		h, l := bits.Mul64(w[i+4], 38)
		var k uint64
		l, k = bits.Add64(l, w[i], 0)
		h += k
		l, k = bits.Add64(l, c, 0)
		c = h + k
		r[i] = l
	}
	r.fold(c)
	return
}

var feD fe

func init() { feD = toFe(D) }

type fpoint struct{ x, y, z, t fe }

// add is the same complete formula as Add.
func (p *fpoint) add(q *fpoint) (r fpoint) {
	a := feMul(&p.x, &q.x)
	b := feMul(&p.y, &q.y)
	c := feMul(&p.t, &q.t)
	c = feMul(&c, &feD)
	d := feMul(&p.z, &q.z)
	s, u := feAdd(p.x, p.y), feAdd(q.x, q.y)
	e := feMul(&s, &u)
	e = feSub(feSub(e, a), b)
	f, g, h := feSub(d, c), feAdd(d, c), feAdd(b, a)
	r.x, r.y, r.z, r.t = feMul(&e, &f), feMul(&g, &h), feMul(&f, &g), feMul(&e, &h)
	return
}

// Mul multiplies by any non negative number.
func (p Point) Mul(n *big.Int) Point {
	q := fpoint{toFe(p.X), toFe(p.Y), toFe(p.Z), toFe(p.T)}
	r := fpoint{y: fe{1}, z: fe{1}}
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = r.add(&r)
		if n.Bit(i) == 1 {
			r = r.add(&q)
		}
	}
	return Point{r.x.big(), r.y.big(), r.z.big(), r.t.big()}
}
