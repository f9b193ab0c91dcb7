package ref

import "math/big"

// Twisted Edwards curve -x^2 + y^2 = 1 + d x^2 y^2 over GF(2^255-19) in math/big.

func bi(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	P     = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	Order = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), bi("27742317777372353535851937790883648493"))

	one   = big.NewInt(1)
	two   = big.NewInt(2)
	D     = mod(new(big.Int).Mul(big.NewInt(-121665), inv(big.NewInt(121666))))
	sqrtM = new(big.Int).Exp(two, new(big.Int).Rsh(new(big.Int).Sub(P, one), 2), P)
	// Base is the base point, y = 4/5 and even x.
	Base = basePoint()
)

func mod(a *big.Int) *big.Int { return a.Mod(a, P) }
func inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(new(big.Int).Mod(a, P), P) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}

// Point in extended coordinates.
type Point struct{ X, Y, Z, T *big.Int }

// Identity is the neutral point.
func Identity() Point {
	return Point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

// Affine makes point from affine coordinates.
func Affine(x, y *big.Int) Point {
	return Point{new(big.Int).Set(x), new(big.Int).Set(y), big.NewInt(1), mul(x, y)}
}

// XY gives affine coordinates.
func (p Point) XY() (x, y *big.Int) {
	zi := inv(p.Z)
	return mul(p.X, zi), mul(p.Y, zi)
}

func basePoint() Point {
	y := mul(big.NewInt(4), inv(big.NewInt(5)))
	x, ok := RecoverX(y, 0)
	if !ok {
		panic("base point")
	}
	return Affine(x, y)
}

// RecoverX gives x with the parity for the y.
func RecoverX(y *big.Int, sign uint) (*big.Int, bool) {
	yy := mul(y, y)
	u := mod(new(big.Int).Sub(yy, one))
	v := mod(new(big.Int).Add(mul(D, yy), one))
	xx := mul(u, inv(v))
	if xx.Sign() == 0 {
		return new(big.Int), true
	}
	x := new(big.Int).Exp(xx, new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(3)), 3), P)
	if mul(x, x).Cmp(xx) != 0 {
		x = mul(x, sqrtM)
	}
	if mul(x, x).Cmp(xx) != 0 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x.Sub(P, x)
	}
	return x, true
}

// Add two points (complete formula).
func (p Point) Add(q Point) Point {
	A := mul(p.X, q.X)
	B := mul(p.Y, q.Y)
	C := mul(mul(p.T, D), q.T)
	Dd := mul(p.Z, q.Z)
	E := mul(new(big.Int).Add(p.X, p.Y), new(big.Int).Add(q.X, q.Y))
	E.Sub(E, A).Sub(E, B)
	mod(E)
	F := mod(new(big.Int).Sub(Dd, C))
	G := mod(new(big.Int).Add(Dd, C))
	H := mod(new(big.Int).Add(B, A)) // a = -1
	return Point{mul(E, F), mul(G, H), mul(F, G), mul(E, H)}
}

// Neg is the opposite point.
func (p Point) Neg() Point {
	return Point{mod(new(big.Int).Neg(p.X)), new(big.Int).Set(p.Y), new(big.Int).Set(p.Z), mod(new(big.Int).Neg(p.T))}
}

// MulSlow multiplies by any non negative number in math/big.
func (p Point) MulSlow(n *big.Int) Point {
	r := Identity()
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if n.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// Equal compares points.
func (p Point) Equal(q Point) bool {
	return mul(p.X, q.Z).Cmp(mul(q.X, p.Z)) == 0 && mul(p.Y, q.Z).Cmp(mul(q.Y, p.Z)) == 0
}

// Bytes is the canonical compressed form.
func (p Point) Bytes() (b [32]byte) {
	x, y := p.XY()
	b = LE32(y)
	b[31] |= byte(x.Bit(0)) << 7
	return
}

// Decode decompresses the point the way CryptoNote does: y must be canonical (less than p), x must exist,
// and negative zero x is rejected.
func Decode(b [32]byte) (Point, bool) {
	sign := uint(b[31] >> 7)
	b[31] &= 0x7f
	y := FromLE(b[:])
	if y.Cmp(P) >= 0 {
		return Point{}, false
	}
	x, ok := RecoverX(y, sign)
	if !ok {
		return Point{}, false
	}
	if x.Sign() == 0 && sign == 1 {
		return Point{}, false
	}
	return Affine(x, y), true
}

// InSubgroup tells if the point has the prime order (or is the identity).
func (p Point) InSubgroup() bool { return p.Mul(Order).Equal(Identity()) }

// FromLE is a little endian number.
func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// LE32 is 32 bytes little endian.
func LE32(n *big.Int) (b [32]byte) {
	s := n.Bytes()
	if len(s) > 32 {
		panic("number is too big")
	}
	for i := range s {
		b[len(s)-1-i] = s[i]
	}
	return
}

// ModL is little endian number modulo the order.
func ModL(b []byte) *big.Int { return new(big.Int).Mod(FromLE(b), Order) }

// SubL is a-b mod the order.
func SubL(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, Order)
}

// AddL is a+b mod the order.
func AddL(a, b *big.Int) *big.Int {
	r := new(big.Int).Add(a, b)
	return r.Mod(r, Order)
}

// MulL is a*b mod the order.
func MulL(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, Order)
}

// HashToPoint maps 32 bytes (already hashed) to a point of the prime order subgroup: Elligator 2 on the Montgomery
// curve, mapped to the Edwards one, times 8. It is written from the mathematical definition, not from ref10 code.
func HashToPoint(h [32]byte) Point {
	return Elligator(h).Mul(big.NewInt(8))
}

// Elligator is HashToPoint before the cofactor multiplication.
func Elligator(h [32]byte) Point {
	A := big.NewInt(486662)
	u := new(big.Int).Mod(FromLE(h[:]), P)
	u2 := mul(u, u)
	w := mod(new(big.Int).Add(mul(two, u2), one)) // 1 + 2u^2
	wi := inv(w)
	// second candidate -2Au^2/(1+2u^2), even x
	c2 := mod(new(big.Int).Neg(mul(mul(mul(two, A), u2), wi)))
	if x, y, ok := montToEd(c2, 0); ok {
		return Affine(x, y)
	}
	// first candidate -A/(1+2u^2), odd x
	c1 := mod(new(big.Int).Neg(mul(A, wi)))
	x, y, ok := montToEd(c1, 1)
	if !ok {
		panic("elligator: no candidate is on the curve")
	}
	return Affine(x, y)
}

func montToEd(U *big.Int, sign uint) (x, y *big.Int, ok bool) {
	den := mod(new(big.Int).Add(U, one))
	if den.Sign() == 0 {
		return nil, nil, false
	}
	y = mul(new(big.Int).Sub(U, one), inv(den))
	mod(y)
	x, ok = RecoverX(y, sign)
	return
}
