// Package gen makes the edge-laden inputs shared by the checks.
package gen

import (
	"math/big"
	"math/rand"

	"verifharness/ref"
)

// Bytes is n random bytes.
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// B32 is 32 random bytes.
func B32(r *rand.Rand) (b [32]byte) {
	r.Read(b[:])
	return
}

// U64 is a number with every magnitude and its boundaries.
func U64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		k := uint(r.Intn(64))
		return (uint64(1) << k) + uint64(r.Intn(3)) - 1
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		// boundary of the 7 bit groups
		k := uint(1 + r.Intn(9))
		return (uint64(1) << (7 * k)) + uint64(r.Intn(3)) - 1
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

// U32 is the same for 32 bits.
func U32(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(4))
	case 1:
		k := uint(r.Intn(32))
		return (uint32(1) << k) + uint32(r.Intn(3)) - 1
	case 2:
		return ^uint32(0) - uint32(r.Intn(3))
	default:
		return r.Uint32() >> uint(r.Intn(32))
	}
}

// Raw256 is any 256 bit value with edges near 0, p, L, 2^252, 2^255, 2^256.
func Raw256(r *rand.Rand) [32]byte {
	one := big.NewInt(1)
	max := new(big.Int).Lsh(one, 256)
	switch r.Intn(8) {
	case 0, 1, 2:
		return B32(r)
	case 3:
		return ref.LE32(big.NewInt(int64(r.Intn(5))))
	case 4:
		return near(r, ref.P, max)
	case 5:
		m := new(big.Int).Mul(ref.Order, big.NewInt(int64(1+r.Intn(15))))
		return near(r, m, max)
	case 6:
		return near(r, new(big.Int).Lsh(one, uint(r.Intn(257))), max)
	default:
		b := B32(r)
		// runs of zeros or ones exercise the carry chains
		from, to := r.Intn(32), r.Intn(33)
		v := byte(0)
		if r.Intn(2) == 0 {
			v = 0xff
		}
		for i := from; i < to; i++ {
			b[i] = v
		}
		return b
	}
}

func near(r *rand.Rand, m, max *big.Int) [32]byte {
	v := new(big.Int).Add(m, big.NewInt(int64(r.Intn(41)-20)))
	if v.Sign() < 0 || v.Cmp(max) >= 0 {
		v.Sub(max, big.NewInt(int64(1+r.Intn(20))))
	}
	return ref.LE32(v)
}

// Scalar is a canonical scalar, below the order.
func Scalar(r *rand.Rand) [32]byte {
	switch r.Intn(6) {
	case 0:
		return ref.LE32(big.NewInt(int64(r.Intn(20))))
	case 1:
		return ref.LE32(new(big.Int).Sub(ref.Order, big.NewInt(int64(1+r.Intn(20)))))
	case 2:
		b := Raw256(r)
		return ref.LE32(ref.ModL(b[:]))
	case 3:
		return ref.LE32(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(252))))
	default:
		b := B32(r)
		return ref.LE32(ref.ModL(b[:]))
	}
}

// Scalar1 is a canonical scalar that is not zero.
func Scalar1(r *rand.Rand) [32]byte {
	for {
		if s := Scalar(r); s != [32]byte{} {
			return s
		}
	}
}

// Torsion is the group of the points of small order, made from a point of order 8.
var Torsion = torsion()

func torsion() []ref.Point {
	for y := int64(2); ; y++ {
		x, ok := ref.RecoverX(big.NewInt(y), 0)
		if !ok {
			continue
		}
		t := ref.Affine(x, big.NewInt(y)).Mul(ref.Order)
		if t.Mul(big.NewInt(4)).Equal(ref.Identity()) {
			continue
		}
		res := []ref.Point{ref.Identity()}
		for i := 1; i < 8; i++ {
			res = append(res, res[i-1].Add(t))
		}
		return res
	}
}

// Point is a decodable point: of the subgroup, with a torsion part or small order.
func Point(r *rand.Rand) ref.Point {
	switch r.Intn(6) {
	case 0:
		return Torsion[r.Intn(8)]
	case 1:
		s := Scalar(r)
		return ref.Base.Mul(ref.FromLE(s[:])).Add(Torsion[r.Intn(8)])
	case 2:
		for {
			b := B32(r)
			if p, ok := ref.Decode(b); ok {
				return p
			}
		}
	default:
		s := Scalar(r)
		return ref.Base.Mul(ref.FromLE(s[:]))
	}
}

// PointBytes is 32 bytes that may or may not decode.
func PointBytes(r *rand.Rand) [32]byte {
	switch r.Intn(5) {
	case 0:
		return Raw256(r)
	case 1:
		// non canonical y and the special values with both signs
		ys := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(ref.P, big.NewInt(1)), ref.P,
			new(big.Int).Add(ref.P, big.NewInt(int64(r.Intn(19))))}
		b := ref.LE32(ys[r.Intn(len(ys))])
		if r.Intn(2) == 0 {
			b[31] |= 0x80
		}
		return b
	case 2:
		b := Point(r).Bytes()
		b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		return b
	default:
		return Point(r).Bytes()
	}
}
