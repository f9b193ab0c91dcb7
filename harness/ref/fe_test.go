package ref

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestMul(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	p := Base
	for i := 0; i < 2000; i++ {
		n := new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(257))))
		a, b := p.Mul(n), p.MulSlow(n)
		if !a.Equal(b) || a.Bytes() != b.Bytes() || mul(a.X, a.Y).Cmp(mul(a.T, a.Z)) != 0 {
			t.Fatal(i)
		}
		p = b.Add(Base)
	}
	m := new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
	for i := 0; i < 200000; i++ {
		x, y := new(big.Int).Rand(r, m), new(big.Int).Rand(r, m)
		var a, b fe
		for k := range a {
			a[k], b[k] = r.Uint64(), r.Uint64()
			if r.Intn(3) == 0 {
				a[k] = ^uint64(0)
			}
			if r.Intn(3) == 0 {
				b[k] = ^uint64(0)
			}
			if r.Intn(5) == 0 {
				a[k] = 0
			}
		}
		x, y = a.big(), b.big()
		if feMul(&a, &b).big().Cmp(mul(x, y)) != 0 || feAdd(a, b).big().Cmp(mod(new(big.Int).Add(x, y))) != 0 || feSub(a, b).big().Cmp(mod(new(big.Int).Sub(x, y))) != 0 {
			t.Fatal(a, b)
		}
	}
}

func BenchmarkMul(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Base.Mul(Order)
	}
}
func BenchmarkMulSlow(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Base.MulSlow(Order)
	}
}

func TestKeccakF(t *testing.T) {
	r := rand.New(rand.NewSource(5))
	for i := 0; i < 1000; i++ {
		var a [25]uint64
		for j := range a {
			a[j] = r.Uint64()
		}
		b := a
		keccakF(&a)
		keccakSlow(&b)
		if a != b {
			t.Fatal("differs")
		}
	}
}
