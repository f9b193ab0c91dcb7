package main

import (
	"math/big"

	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

type ring struct {
	prefix, image [32]byte
	pubs          [][32]byte
	sigs          [][2][32]byte
}

func (r ring) clone() ring {
	c := r
	c.pubs = append([][32]byte{}, r.pubs...)
	c.sigs = append([][2][32]byte{}, r.sigs...)
	return c
}

func (r ring) verdict(check bool) (got bool, changed bool) {
	h, im := crypto.Hash(r.prefix), crypto.KeyImage(r.image)
	pubs := make([]crypto.PublicKey, len(r.pubs))
	for i := range pubs {
		pubs[i] = r.pubs[i]
	}
	sigs := make([]crypto.Signature, len(r.sigs))
	for i := range sigs {
		sigs[i] = *mkSig(r.sigs[i][0], r.sigs[i][1])
	}
	got = crypto.CheckRingSignature(&h, &im, &pubs, &sigs, check)
	changed = h != crypto.Hash(r.prefix) || im != crypto.KeyImage(r.image)
	for i := range pubs {
		changed = changed || pubs[i] != crypto.PublicKey(r.pubs[i])
	}
	for i := range sigs {
		changed = changed || sigs[i] != *mkSig(r.sigs[i][0], r.sigs[i][1])
	}
	return
}

func checkC10(c *mon.Ctx) {
	c.Rule("Ring signatures made by the code for every ring size and signer position are verified by the code and by a math/big verifier; " +
		"altered rings, images with a torsion part, forged and malleated signatures get a verdict from both, and the verdicts must agree. " +
		"A case is non trivial when it is a ring and signature tuple not seen before.")
	c.Assume("Keccak, hash to point and the curve of harness/ref are right")

	verify := func(t *mon.T, what string, r ring, check bool) bool {
		got, changed := r.verdict(check)
		want := ref.CheckRing(r.prefix, r.image, r.pubs, r.sigs, check)
		if changed {
			t.Failf("%s: verification changed its arguments", what)
		}
		t.Count("verdicts compared", 1)
		if want {
			t.Count("valid rings", 1)
		} else {
			t.Count("invalid rings", 1)
		}
		t.Distinct(r.prefix[:], r.image[:], r.pubs, r.sigs, check)
		if got != want {
			t.Failf("%s: ring accepted=%v want %v, checkKeyImage=%v prefix=%x image=%x pubs=%x sigs=%x", what, got, want, check, r.prefix, r.image, r.pubs, r.sigs)
		}
		return want
	}
	scalar := func(t *mon.T) *big.Int {
		s := gen.Scalar1(t.Rng)
		return ref.FromLE(s[:])
	}

	c.Par("sign_verify", c.N(160, 4000), func(t *mon.T) {
		n := []int{1, 2, 3, 4, 5, 1, 2, 3, 7, 1, 2, 12}[t.I%12]
		idx := t.Rng.Intn(n)
		sec := gen.Scalar1(t.Rng)
		r := ring{prefix: gen.Raw256(t.Rng), pubs: make([][32]byte, n)}
		for i := range r.pubs {
			r.pubs[i] = ref.Base.Mul(scalar(t)).Bytes()
		}
		if n > 2 && t.I%5 == 0 {
			// decoy key outside of the prime order subgroup, and repeated decoys
			r.pubs[(idx+1)%n] = gen.Point(t.Rng).Bytes()
			r.pubs[(idx+2)%n] = r.pubs[(idx+1)%n]
		}
		r.pubs[idx] = ref.Base.Mul(ref.FromLE(sec[:])).Bytes()
		t.SetDesc("n=%d idx=%d sec=%x", n, idx, sec)

		sk, pk := crypto.SecretKey(sec), crypto.PublicKey(r.pubs[idx])
		im, err := crypto.GenerateKeyImage(&pk, &sk)
		if err != nil {
			t.Failf("key image: %v", err)
			return
		}
		if w := ref.KeyImage(r.pubs[idx], ref.FromLE(sec[:])).Bytes(); *im != crypto.KeyImage(w) {
			t.Failf("key image of %x: got %x want %x", sec, *im, w)
			return
		}
		t.Count("key images compared", 1)
		r.image = *im
		h := crypto.Hash(r.prefix)
		pubs := make([]crypto.PublicKey, n)
		for i := range pubs {
			pubs[i] = r.pubs[i]
		}
		sigs, err := crypto.GenerateRingSignature(&h, im, &pubs, &sk, uint64(idx))
		if err != nil {
			t.Failf("ring signature, n=%d idx=%d: %v", n, idx, err)
			return
		}
		for i := range pubs {
			if pubs[i] != crypto.PublicKey(r.pubs[i]) {
				t.Failf("signing changed the ring")
			}
		}
		if len(sigs) != n {
			t.Failf("%d signatures for %d keys", len(sigs), n)
			return
		}
		for _, s := range sigs {
			r.sigs = append(r.sigs, [2][32]byte{s.C, s.R})
		}
		for _, check := range []bool{true, false} {
			if !verify(t, "own ring", r, check) {
				t.Failf("own ring signature is not valid: n=%d idx=%d sec=%x", n, idx, sec)
				return
			}
		}
		t.Count("own rings", 1)
		t.Sample(map[string]interface{}{"n": n, "idx": idx, "prefix": mon.Hex(r.prefix[:]), "image": mon.Hex(r.image[:])})

		// alterations
		flip := func(b *[32]byte) { bit := t.Rng.Intn(256); b[bit/8] ^= 1 << uint(bit%8) }
		bad := func(what string, m ring) {
			if verify(t, what, m, true) {
				t.Failf("reference accepts altered ring: %s", what)
			}
			t.Count("altered rings", 1)
		}
		j := t.Rng.Intn(n)
		m := r.clone()
		switch t.I % 8 {
		case 0:
			flip(&m.prefix)
			bad("prefix", m)
		case 1:
			flip(&m.image)
			bad("image", m)
		case 2:
			flip(&m.pubs[j])
			bad("key", m)
		case 3:
			flip(&m.sigs[j][0])
			bad("c", m)
		case 4:
			flip(&m.sigs[j][1])
			bad("r", m)
		case 5:
			if n > 1 {
				k := (j + 1) % n
				if m.pubs[j] != m.pubs[k] {
					m.pubs[j], m.pubs[k] = m.pubs[k], m.pubs[j]
					bad("keys swapped", m)
				}
				m = r.clone()
				m.sigs[j], m.sigs[k] = m.sigs[k], m.sigs[j]
				if m.pubs[j] != m.pubs[k] {
					bad("signatures swapped", m)
				}
			}
		case 6:
			m.sigs = m.sigs[:n-1]
			bad("signature is missing", m)
			m = r.clone()
			m.sigs = append(m.sigs, m.sigs[0])
			bad("extra signature", m)
			m = r.clone()
			m.pubs = m.pubs[:n-1]
			bad("key is missing", m)
		case 7:
			m.image = ref.KeyImage(ref.Base.Mul(scalar(t)).Bytes(), scalar(t)).Bytes()
			bad("other image", m)
		}
		// malleability of every element
		m = r.clone()
		for x := 0; x < 2; x++ {
			if v, ok := addRaw(m.sigs[j][x], 1+int64(t.Rng.Intn(14))); ok {
				m.sigs[j][x] = v
				bad("non canonical scalar", m)
				m = r.clone()
			}
		}
		// shift between c values keeps their sum
		if n > 1 {
			k := (j + 1) % n
			one := big.NewInt(1)
			m.sigs[j][0] = ref.LE32(ref.AddL(ref.FromLE(m.sigs[j][0][:]), one))
			m.sigs[k][0] = ref.LE32(ref.SubL(ref.FromLE(m.sigs[k][0][:]), one))
			bad("shifted c", m)
		}
	})

	// Signatures made by the reference, with images that may have a torsion part: the same output could be spent 8 times.
	c.Par("reference_signed", c.N(120, 4000), func(t *mon.T) {
		n := 1 + t.I%5
		idx := t.Rng.Intn(n)
		sec := scalar(t)
		r := ring{prefix: gen.B32(t.Rng), pubs: make([][32]byte, n)}
		for i := range r.pubs {
			r.pubs[i] = ref.Base.Mul(scalar(t)).Bytes()
		}
		r.pubs[idx] = ref.Base.Mul(sec).Bytes()
		I := ref.KeyImage(r.pubs[idx], sec)
		tors := t.I % 4
		if tors > 0 {
			I = I.Add(gen.Torsion[1+t.Rng.Intn(7)])
		}
		r.image = I.Bytes()
		ok := false
		for try := 0; try < 200 && !ok; try++ {
			r.sigs, ok = ref.SignRing(r.prefix, I, r.pubs, sec, idx, func() *big.Int { return scalar(t) })
		}
		if !ok {
			return
		}
		if !verify(t, "reference ring", r, false) {
			t.Failf("reference made wrong signature")
		}
		if verify(t, "reference ring, image is checked", r, true) != (tors == 0) {
			t.Failf("reference accepts image with torsion")
		}
		if tors > 0 {
			t.Count("rings with torsion image", 1)
		} else {
			t.Count("reference rings", 1)
		}
	})

	// Degenerated images and rings.
	c.Par("degenerated", c.N(120, 3000), func(t *mon.T) {
		n := t.I % 4
		r := ring{prefix: gen.Raw256(t.Rng), image: gen.PointBytes(t.Rng)}
		for i := 0; i < n; i++ {
			r.pubs = append(r.pubs, gen.PointBytes(t.Rng))
			r.sigs = append(r.sigs, [2][32]byte{gen.Raw256(t.Rng), gen.Raw256(t.Rng)})
		}
		verify(t, "degenerated", r, t.I%2 == 0)
		// identity image and a signature that holds for it: sec is 0 for the image but not for the key
		if n > 0 {
			// every c is chosen, single member with sec=0: key is the identity, image is the identity
			id := ref.Identity().Bytes()
			r := ring{prefix: gen.B32(t.Rng), image: id, pubs: [][32]byte{id}}
			k := scalar(t)
			sigs, ok := ref.SignRing(r.prefix, ref.Identity(), r.pubs, new(big.Int), 0, func() *big.Int { return k })
			if ok {
				r.sigs = sigs
				verify(t, "identity", r, true)
				verify(t, "identity", r, false)
			}
		}
	})

	// Refused requests to sign.
	c.Par("refused", c.N(120, 2000), func(t *mon.T) {
		n := 1 + t.Rng.Intn(4)
		idx := t.Rng.Intn(n)
		sec := gen.Scalar1(t.Rng)
		pubs := make([]crypto.PublicKey, n)
		for i := range pubs {
			pubs[i] = ref.Base.Mul(scalar(t)).Bytes()
		}
		pubs[idx] = ref.Base.Mul(ref.FromLE(sec[:])).Bytes()
		im := crypto.KeyImage(ref.KeyImage(pubs[idx], ref.FromLE(sec[:])).Bytes())
		sk, at := crypto.SecretKey(sec), uint64(idx)
		h := crypto.Hash(gen.B32(t.Rng))
		what := ""
		switch t.I % 6 {
		case 5: // image of a secret that is not reduced
			v := new(big.Int).Add(ref.Order, scalar(t))
			if t.Rng.Intn(2) == 0 {
				v = new(big.Int).Add(ref.Order, big.NewInt(int64(t.Rng.Intn(3))))
			}
			sk = ref.LE32(v)
			pk := pubs[idx]
			if g, err := crypto.GenerateKeyImage(&pk, &sk); err == nil {
				t.Failf("key image of the secret %x that is out of range is %x", sk, *g)
			}
			t.Count("refused images", 1)
			return
		case 0:
			what, at = "index out of the ring", uint64(n)+gen.U64(t.Rng)%(1<<60)
			if t.Rng.Intn(3) > 0 {
				at = uint64(n)
			}
		case 1:
			what = "other secret"
			v := ref.LE32(ref.AddL(ref.FromLE(sec[:]), big.NewInt(1)))
			sk = v
			if t.Rng.Intn(2) == 0 { // key that begins as the right one
				for p := ref.Base.Mul(ref.FromLE(v[:])); ; p = p.Add(ref.Base) {
					if b := p.Bytes(); b[0] == pubs[idx][0] || b[31] == pubs[idx][31] {
						break
					}
					v = ref.LE32(ref.AddL(ref.FromLE(v[:]), big.NewInt(1)))
				}
				sk = v
				im = crypto.KeyImage(ref.KeyImage(pubs[idx], ref.FromLE(v[:])).Bytes())
			}
		case 2:
			what = "other image"
			im = crypto.KeyImage(ref.Base.Mul(scalar(t)).Bytes())
		case 3:
			what = "secret out of range"
			v, _ := addRaw(sec, 1)
			sk = v
		case 4:
			what = "broken key in the ring"
			bad := gen.PointBytes(t.Rng)
			if _, ok := ref.Decode(bad); ok {
				return
			}
			pubs[t.Rng.Intn(n)] = bad
		}
		t.Distinct(what, h[:])
		if s, err := crypto.GenerateRingSignature(&h, &im, &pubs, &sk, at); err == nil {
			t.Failf("%s: ring is signed: %+v", what, s)
		}
		t.Count("refused rings", 1)
	})

	// Linkability and nonces.
	c.Par("linkability", c.N(8, 16), func(t *mon.T) {
		sec := gen.Scalar1(t.Rng)
		sk := crypto.SecretKey(sec)
		pub := crypto.PublicKey(ref.Base.Mul(ref.FromLE(sec[:])).Bytes())
		other := crypto.PublicKey(ref.Base.Mul(scalar(t)).Bytes())
		first, err := crypto.GenerateKeyImage(&pub, &sk)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		im2, err := crypto.GenerateKeyImage(&other, &sk)
		if err != nil || *im2 == *first {
			t.Failf("different keys have the same image %x, %v", *first, err)
		}
		var ks, cs, rs bitStats
		for i, n := 0, c.N(150, 2000); i < n; i++ {
			im, err := crypto.GenerateKeyImage(&pub, &sk)
			if err != nil || *im != *first {
				t.Failf("image of the key is not stable: %x and %x, %v", *im, *first, err)
				return
			}
			h := crypto.Hash(gen.B32(t.Rng))
			pubs := []crypto.PublicKey{pub, other}
			s, err := crypto.GenerateRingSignature(&h, im, &pubs, &sk, 0)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			k := ref.LE32(ref.AddL(ref.FromLE(s[0].R[:]), ref.MulL(ref.FromLE(s[0].C[:]), ref.FromLE(sec[:]))))
			if ks.add(k) || cs.add([32]byte(s[1].C)) || rs.add([32]byte(s[1].R)) {
				t.Failf("random value of a ring is repeated")
				return
			}
			if s[1].C == s[1].R {
				t.Failf("c and r of a decoy are the same")
			}
			t.Count("ring nonces observed", 3)
		}
		for name, st := range map[string]*bitStats{"k": &ks, "c": &cs, "r": &rs} {
			if b := st.stuck(); len(b) > 0 {
				t.Failf("biased random value %s of a ring, bits %v over %d", name, b, st.n)
			}
		}
	})

	// Multiplication of images, used by the domain check.
	c.Par("image_mult", c.N(200, 5000), func(t *mon.T) {
		b := gen.PointBytes(t.Rng)
		a := gen.Scalar(t.Rng)
		if t.I%3 == 0 {
			a = ref.LE32(ref.Order)
		}
		P, ok := ref.Decode(b)
		im, sc := crypto.KeyImage(b), crypto.KeyImage(a)
		got, err := im.ScalarMult(&sc)
		t.Distinct(a[:], b[:])
		if (err == nil) != ok {
			t.Failf("multiplication of %x: error %v, decodable %v", b, err, ok)
			return
		}
		if ok {
			if w := P.Mul(ref.FromLE(a[:])).Bytes(); *got != crypto.KeyImage(w) {
				t.Failf("%x * %x: got %x want %x", b, a, *got, w)
			}
			t.Count("image multiplications", 1)
		}
	})

	for k, v := range map[string]int64{"own rings": 150, "altered rings": 200, "rings with torsion image": 50, "reference rings": 20, "refused rings": 80,
		"ring nonces observed": 2000, "image multiplications": 100, "key images compared": 150} {
		c.Require(k, v)
	}
}
