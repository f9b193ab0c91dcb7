package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func mkSig(c, r [32]byte) *crypto.Signature {
	return &crypto.Signature{C: crypto.EllipticCurveScalar(c), R: crypto.EllipticCurveScalar(r)}
}

// addRaw is a+n*L as 256 bit number, when it fits.
func addRaw(a [32]byte, n int64) ([32]byte, bool) {
	v := new(big.Int).Add(ref.FromLE(a[:]), new(big.Int).Mul(ref.Order, big.NewInt(n)))
	if v.BitLen() > 256 {
		return a, false
	}
	return ref.LE32(v), true
}

// bitStats tells which bits of the values never changed.
type bitStats struct {
	n    int
	ones [256]int
	seen map[[32]byte]bool
}

func (s *bitStats) add(v [32]byte) (dup bool) {
	if s.seen == nil {
		s.seen = map[[32]byte]bool{}
	}
	dup = s.seen[v]
	s.seen[v] = true
	s.n++
	for i := 0; i < 256; i++ {
		s.ones[i] += int(v[i/8]>>uint(i%8)) & 1
	}
	return
}

// stuck lists the bits below the top of the order that are too far from a half.
func (s *bitStats) stuck() (res []int) {
	for i := 0; i < 252; i++ {
		// 10 standard deviations: sqrt(n)/2*10
		d := 2*s.ones[i] - s.n
		if d*d > 100*s.n {
			res = append(res, i)
		}
	}
	return
}

func checkC09(c *mon.Ctx) {
	c.Rule("Signatures made by the code are verified by the code and by an independent math/big verifier; altered, malleated, forged (small order keys, " +
		"identity commitments, non canonical scalars and keys) signatures get a verdict from both, and the verdicts must agree. " +
		"Nonces are recovered with the secret key and their distribution is observed. A case is non trivial when it is a signature, key and hash tuple not seen before.")
	c.Assume("Keccak and the curve of harness/ref are right")

	verify := func(t *mon.T, what string, hash, pub, C, R [32]byte) bool {
		h, p := crypto.Hash(hash), crypto.PublicKey(pub)
		s := mkSig(C, R)
		s0, h0, p0 := *s, h, p
		got := s.Check(&h, &p)
		want := ref.CheckSignature(hash, pub, C, R)
		if *s != s0 || h != h0 || p != p0 {
			t.Failf("verification changed its arguments")
		}
		t.Count("verdicts compared", 1)
		if want {
			t.Count("valid signatures", 1)
		} else {
			t.Count("invalid signatures", 1)
		}
		t.Distinct(hash[:], pub[:], C[:], R[:])
		if got != want {
			t.Failf("%s: signature c=%x r=%x of hash %x with key %x: accepted=%v, want %v", what, C, R, hash, pub, got, want)
		}
		return want
	}

	c.Par("sign_verify", c.N(300, 8000), func(t *mon.T) {
		hash := gen.Raw256(t.Rng)
		sec := gen.Scalar1(t.Rng)
		t.SetDesc("hash=%x sec=%x", hash, sec)
		sk := crypto.SecretKey(sec)
		pub, err := crypto.PublicFromSecret(&sk)
		if err != nil {
			t.Failf("no public key of secret %x: %v", sec, err)
			return
		}
		sig, err := crypto.Hash(hash).Sign(&sk)
		if err != nil {
			t.Failf("hash %x is not signed with %x: %v", hash, sec, err)
			return
		}
		C, R := [32]byte(sig.C), [32]byte(sig.R)
		if !verify(t, "own signature", hash, *pub, C, R) {
			t.Failf("own signature c=%x r=%x of %x with secret %x is not valid", C, R, hash, sec)
			return
		}
		t.Count("own signatures", 1)
		t.Sample(map[string]string{"hash": mon.Hex(hash[:]), "sec": mon.Hex(sec[:]), "c": mon.Hex(C[:]), "r": mon.Hex(R[:])})

		// independent signature is accepted too
		k := gen.Scalar1(t.Rng)
		p2, c2, r2 := ref.Sign(hash, ref.FromLE(sec[:]), ref.FromLE(k[:]))
		verify(t, "reference signature", hash, p2, c2, r2)

		// single bit changes anywhere
		for j := 0; j < 4; j++ {
			h, p, cc, rr := hash, [32]byte(*pub), C, R
			bit := t.Rng.Intn(256)
			flip := func(b *[32]byte) { b[bit/8] ^= 1 << uint(bit%8) }
			name := ""
			switch j {
			case 0:
				flip(&h)
				name = "hash"
			case 1:
				flip(&p)
				name = "key"
			case 2:
				flip(&cc)
				name = "c"
			case 3:
				flip(&rr)
				name = "r"
			}
			if verify(t, fmt.Sprintf("bit %d of %s flipped", bit, name), h, p, cc, rr) {
				t.Failf("reference accepts altered signature")
			}
			t.Count("altered signatures", 1)
		}
		// malleability: the same residue with other bytes
		for n := int64(1); n <= 15; n += 7 {
			if cc, ok := addRaw(C, n); ok {
				verify(t, "c+nL", hash, *pub, cc, R)
			}
			if rr, ok := addRaw(R, n); ok {
				verify(t, "r+nL", hash, *pub, C, rr)
				t.Count("non canonical scalars", 1)
			}
		}
		// negated pair, swapped pair, zero
		verify(t, "swapped", hash, *pub, R, C)
		verify(t, "negated r", hash, *pub, C, ref.LE32(ref.SubL(new(big.Int), ref.FromLE(R[:]))))
		verify(t, "zero c", hash, *pub, [32]byte{}, R)
		verify(t, "zero r", hash, *pub, C, [32]byte{})
		// other key, other hash
		other := gen.Scalar1(t.Rng)
		verify(t, "other key", hash, ref.Base.Mul(ref.FromLE(other[:])).Bytes(), C, R)
		verify(t, "random", hash, *pub, gen.Raw256(t.Rng), gen.Raw256(t.Rng))

		// serialization of the signature
		b, err := sig.Serialize()
		if err != nil || !bytes.Equal(b, append(append([]byte{}, C[:]...), R[:]...)) {
			t.Failf("signature c=%x r=%x is serialized as %x, %v", C, R, b, err)
		}
		var back crypto.Signature
		if err := back.Deserialize(bytes.NewReader(b)); err != nil || back != *sig {
			t.Failf("serialized signature is read as %+v, %v", back, err)
		}
		if err := back.Deserialize(bytes.NewReader(b[:t.Rng.Intn(64)])); err == nil {
			t.Failf("truncated signature is read")
		}
	})

	// Forgeries that hold the group equation.
	c.Par("forged", c.N(300, 8000), func(t *mon.T) {
		hash := gen.Raw256(t.Rng)
		switch t.I % 4 {
		case 0:
			// small order key: c*A is one of 8 points, r is the nonce
			A := gen.Torsion[t.Rng.Intn(8)]
			pub := A.Bytes()
			for try := 0; try < 64; try++ {
				kb := gen.Scalar1(t.Rng)
				k := ref.FromLE(kb[:])
				j := t.Rng.Intn(8)
				comm := ref.Base.Mul(k).Add(gen.Torsion[j]).Bytes()
				cn := ref.HashScalar(hash[:], pub[:], comm[:])
				if A.Mul(cn).Equal(gen.Torsion[j]) {
					verify(t, "small order key", hash, pub, ref.LE32(cn), kb)
					t.Count("small order keys", 1)
					break
				}
			}
		case 1:
			// commitment is the identity
			sec := gen.Scalar1(t.Rng)
			if t.Rng.Intn(3) == 0 {
				sec = [32]byte{}
			}
			pub := ref.Base.Mul(ref.FromLE(sec[:])).Bytes()
			id := ref.Identity().Bytes()
			cn := ref.HashScalar(hash[:], pub[:], id[:])
			r := ref.SubL(new(big.Int), ref.MulL(cn, ref.FromLE(sec[:])))
			if verify(t, "identity commitment", hash, pub, ref.LE32(cn), ref.LE32(r)) {
				t.Failf("reference accepts the identity commitment")
			}
			t.Count("identity commitments", 1)
		case 2:
			// key with a torsion part: the equation holds when c*T vanishes or is compensated
			secb, kb := gen.Scalar1(t.Rng), gen.Scalar1(t.Rng)
			sec, k := ref.FromLE(secb[:]), ref.FromLE(kb[:])
			T := gen.Torsion[1+t.Rng.Intn(7)]
			pub := ref.Base.Mul(sec).Add(T).Bytes()
			comm := ref.Base.Mul(k).Bytes()
			cn := ref.HashScalar(hash[:], pub[:], comm[:])
			verify(t, "torsion key", hash, pub, ref.LE32(cn), ref.LE32(ref.SubL(k, ref.MulL(cn, sec))))
			t.Count("torsion keys", 1)
		case 3:
			// keys that do not decode
			secb, kb := gen.Scalar1(t.Rng), gen.Scalar1(t.Rng)
			pub, C, R := ref.Sign(hash, ref.FromLE(secb[:]), ref.FromLE(kb[:]))
			bad := gen.PointBytes(t.Rng)
			verify(t, "odd key", hash, bad, C, R)
			// non canonical identity with a signature that holds for it
			nb := ref.LE32(new(big.Int).Add(ref.P, big.NewInt(1)))
			comm := ref.Base.Mul(ref.FromLE(kb[:])).Bytes()
			cn := ref.HashScalar(hash[:], nb[:], comm[:])
			verify(t, "non canonical key", hash, nb, ref.LE32(cn), kb)
			neg := ref.LE32(big.NewInt(1))
			neg[31] |= 0x80
			cn = ref.HashScalar(hash[:], neg[:], comm[:])
			verify(t, "negative zero key", hash, neg, ref.LE32(cn), kb)
			t.Count("undecodable keys", 1)
			_ = pub
		}
	})

	// Keys out of range.
	c.Par("bad_secret", c.N(300, 5000), func(t *mon.T) {
		s := gen.Raw256(t.Rng)
		sk := crypto.SecretKey(s)
		ok := ref.FromLE(s[:]).Cmp(ref.Order) < 0
		t.Distinct(s[:])
		pub, err := crypto.PublicFromSecret(&sk)
		if (err == nil) != ok {
			t.Failf("public key of secret %x: error %v, canonical %v", s, err, ok)
			return
		}
		if ok {
			if w := ref.Base.Mul(ref.FromLE(s[:])).Bytes(); *pub != crypto.PublicKey(w) {
				t.Failf("public key of %x: got %x want %x", s, *pub, w)
			}
			return
		}
		t.Count("non canonical secrets", 1)
		if sig, err := (crypto.Hash{}).Sign(&sk); err == nil {
			t.Failf("signed with a secret %x out of range: %+v", s, sig)
		}
	})

	// Distribution of the nonces. One million runs would not give a false alarm with 10 standard deviations.
	c.Par("nonces", c.N(8, 16), func(t *mon.T) {
		sec := gen.Scalar1(t.Rng)
		sk := crypto.SecretKey(sec)
		var st bitStats
		h := crypto.Hash(gen.B32(t.Rng))
		n := c.N(400, 4000)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				h = crypto.Hash(gen.B32(t.Rng))
			}
			sig, err := h.Sign(&sk)
			if err != nil {
				t.Failf("sign: %v", err)
				return
			}
			k := ref.LE32(ref.AddL(ref.FromLE(sig.R[:]), ref.MulL(ref.FromLE(sig.C[:]), ref.FromLE(sec[:]))))
			t.Distinct(k[:])
			if st.add(k) {
				t.Failf("nonce is repeated with the key %x: the secret leaks", sec)
				return
			}
			t.Count("nonces observed", 1)
		}
		if s := st.stuck(); len(s) > 0 {
			t.Failf("biased nonces, bits %v over %d signatures", s, st.n)
		}
	})
	c.Seq("random_scalars", 2, func(t *mon.T) {
		var st bitStats
		for i := 0; i < 2000; i++ {
			var s [32]byte
			if t.I == 0 {
				s = crypto.RandomScalar()
			} else {
				k, err := crypto.GenerateKey()
				if err != nil {
					t.Failf("generate key: %v", err)
					return
				}
				s = k
			}
			if ref.FromLE(s[:]).Cmp(ref.Order) >= 0 {
				t.Failf("random scalar %x is not reduced", s)
			}
			if st.add(s) {
				t.Failf("random scalar is repeated")
			}
			t.Count("nonces observed", 1)
		}
		if s := st.stuck(); len(s) > 0 {
			t.Failf("biased random scalars, bits %v", s)
		}
	})

	nonces(c)

	for k, v := range map[string]int64{"own signatures": 250, "altered signatures": 1000, "small order keys": 50, "identity commitments": 50,
		"torsion keys": 50, "undecodable keys": 50, "nonces observed": 5000, "valid signatures": 500, "invalid signatures": 2000, "non canonical secrets": 50} {
		c.Require(k, v)
	}
}
