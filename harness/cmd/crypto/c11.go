package main

import (
	"encoding/binary"
	"math/big"

	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func derivScalar(d [32]byte, i uint64) *big.Int {
	var v [10]byte
	n := binary.PutUvarint(v[:], i)
	return ref.HashScalar(d[:], v[:n])
}

func checkC11(c *mon.Ctx) {
	c.Rule("Generated key pairs, foreign and hostile public keys and output indexes at varint boundaries; sender and receiver sides of the " +
		"derivation are compared with each other and with math/big. A case is non trivial when its keys and index were not seen before.")
	c.Assume("Keccak and the curve of harness/ref are right")

	c.Par("shared", c.N(400, 15000), func(t *mon.T) {
		a, r := gen.Scalar1(t.Rng), gen.Scalar1(t.Rng)
		A, R := ref.Base.Mul(ref.FromLE(a[:])).Bytes(), ref.Base.Mul(ref.FromLE(r[:])).Bytes()
		i := gen.U64(t.Rng)
		t.Distinct(a[:], r[:], i)
		t.SetDesc("a=%x r=%x i=%d", a, r, i)
		d1, err1 := crypto.GenerateKeyDerivation(crypto.PublicKey(A), crypto.SecretKey(r))
		d2, err2 := crypto.GenerateKeyDerivation(crypto.PublicKey(R), crypto.SecretKey(a))
		if err1 != nil || err2 != nil {
			t.Failf("derivation: %v, %v", err1, err2)
			return
		}
		if *d1 != *d2 {
			t.Failf("sender and receiver derive different secrets: %x, %x; a=%x r=%x", *d1, *d2, a, r)
		}
		t.Count("shared secrets", 1)
		want := ref.Base.Mul(ref.MulL(ref.FromLE(a[:]), ref.FromLE(r[:]))).Mul(big.NewInt(8)).Bytes()
		if *d1 != crypto.KeyDerivation(want) {
			t.Failf("derivation a=%x r=%x: got %x want %x", a, r, *d1, want)
		}
		if !haveDerive {
			return
		}
		// one time key of the receiver
		b := gen.Scalar1(t.Rng)
		bk := crypto.SecretKey(b)
		B, err := crypto.PublicFromSecret(&bk)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		pub, err := derivePub(d1, i, B)
		if err != nil {
			t.Failf("derive public: %v", err)
			return
		}
		sec, err := deriveSec(d2, i, &bk)
		if err != nil {
			t.Failf("derive secret: %v", err)
			return
		}
		s := derivScalar(want, i)
		Bp, _ := ref.Decode([32]byte(*B))
		if w := Bp.Add(ref.Base.Mul(s)).Bytes(); *pub != crypto.PublicKey(w) {
			t.Failf("derived public key %d of %x: got %x want %x", i, *B, *pub, w)
		}
		if w := ref.LE32(ref.AddL(s, ref.FromLE(b[:]))); *sec != crypto.SecretKey(w) {
			t.Failf("derived secret key %d: got %x want %x", i, *sec, w)
		}
		p2, err := crypto.PublicFromSecret(sec)
		if err != nil || *p2 != *pub {
			t.Failf("one time secret key does not match its public key: i=%d, %v", i, err)
		}
		back, err := underivePub(d1, i, pub)
		if err != nil || *back != *B {
			t.Failf("recipient is not recovered from the one time key: got %x want %x, %v", back, *B, err)
		}
		other, err := derivePub(d1, i+1, B)
		if err != nil || *other == *pub {
			t.Failf("outputs %d and %d have the same key, %v", i, i+1, err)
		}
		if o, err := underivePub(d1, i+1, pub); err != nil || *o == *B {
			t.Failf("wrong index recovers the recipient, %v", err)
		}
		t.Count("one time keys", 1)
		t.Sample(map[string]interface{}{"a": mon.Hex(a[:]), "r": mon.Hex(r[:]), "b": mon.Hex(b[:]), "i": i})
	})

	c.Par("foreign_keys", c.N(400, 15000), func(t *mon.T) {
		pb := gen.PointBytes(t.Rng)
		s := gen.Raw256(t.Rng)
		if t.I%3 != 0 {
			s = gen.Scalar(t.Rng)
		}
		t.Distinct(pb[:], s[:])
		P, okP := ref.Decode(pb)
		n := ref.FromLE(s[:])
		okS := n.Cmp(ref.Order) < 0
		d, err := crypto.GenerateKeyDerivation(crypto.PublicKey(pb), crypto.SecretKey(s))
		if (err == nil) != (okP && okS) {
			t.Failf("derivation of key %x and secret %x: error %v, want valid %v", pb, s, err, okP && okS)
			return
		}
		pk := crypto.PublicKey(pb)
		if pk.Check() != okP {
			t.Failf("check of the key %x: %v", pb, !okP)
		}
		ep := crypto.EllipticCurvePoint(pb)
		if ep.Check() != okP {
			t.Failf("check of the point %x: %v", pb, !okP)
		}
		if err != nil {
			t.Count("invalid keys refused", 1)
		} else {
			want := P.Mul(n).Mul(big.NewInt(8))
			if *d != crypto.KeyDerivation(want.Bytes()) {
				t.Failf("derivation of key %x and secret %x: got %x want %x", pb, s, *d, want.Bytes())
			}
			t.Count("foreign derivations", 1)
		}
		if !haveDerive {
			return
		}
		dd := crypto.KeyDerivation(gen.Raw256(t.Rng))
		i := gen.U64(t.Rng)
		pub, err := derivePub(&dd, i, &pk)
		if (err == nil) != okP {
			t.Failf("derived key from %x: error %v, decodable %v", pb, err, okP)
		} else if okP {
			sc := derivScalar([32]byte(dd), i)
			if w := P.Add(ref.Base.Mul(sc)).Bytes(); *pub != crypto.PublicKey(w) {
				t.Failf("derived key from %x, %d: got %x want %x", pb, i, *pub, w)
			}
		}
		un, err := underivePub(&dd, i, &pk)
		if (err == nil) != okP {
			t.Failf("underived key from %x: error %v, decodable %v", pb, err, okP)
		} else if okP {
			sc := derivScalar([32]byte(dd), i)
			if w := P.Add(ref.Base.Mul(sc).Neg()).Bytes(); *un != crypto.PublicKey(w) {
				t.Failf("underived key from %x, %d: got %x want %x", pb, i, *un, w)
			}
		}
		sk := crypto.SecretKey(s)
		ds, err := deriveSec(&dd, i, &sk)
		if (err == nil) != okS {
			t.Failf("derived secret from %x: error %v, canonical %v", s, err, okS)
		} else if okS {
			if w := ref.LE32(ref.AddL(derivScalar([32]byte(dd), i), n)); *ds != crypto.SecretKey(w) {
				t.Failf("derived secret from %x, %d: got %x want %x", s, i, *ds, w)
			}
		}
	})

	c.Par("view_key", c.N(500, 20000), func(t *mon.T) {
		s := gen.Raw256(t.Rng)
		sk := crypto.SecretKey(s)
		t.Distinct(s[:])
		h := ref.Keccak(s[:])
		if got, w := crypto.ViewFromSpend(&sk), ref.LE32(ref.ModL(h[:])); got != crypto.SecretKey(w) {
			t.Failf("view key of %x: got %x want %x", s, got, w)
		}
		if sk != crypto.SecretKey(s) {
			t.Failf("spend key is changed")
		}
		t.Count("view keys", 1)
	})

	c.Require("shared secrets", 300)
	c.Require("foreign derivations", 100)
	c.Require("invalid keys refused", 50)
	c.Require("view keys", 400)
	if haveDerive {
		c.Require("one time keys", 300)
	}
}
