package ref

import "math/big"

// Independent verification of CryptoNote signatures, from docs/cryptonote/cns002.

var identityBytes = Identity().Bytes()

// HashScalar is keccak of the parts modulo the order.
func HashScalar(parts ...[]byte) *big.Int {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	h := Keccak(b)
	return ModL(h[:])
}

func canonical(s [32]byte) (*big.Int, bool) {
	n := FromLE(s[:])
	return n, n.Cmp(Order) < 0
}

// CheckSignature verifies the signature (c, r) of the hash.
func CheckSignature(hash, pub, c, r [32]byte) bool {
	A, ok := Decode(pub)
	if !ok {
		return false
	}
	cn, ok1 := canonical(c)
	rn, ok2 := canonical(r)
	if !ok1 || !ok2 || cn.Sign() == 0 {
		return false
	}
	comm := A.Mul(cn).Add(Base.Mul(rn)).Bytes()
	if comm == identityBytes {
		return false
	}
	return HashScalar(hash[:], pub[:], comm[:]).Cmp(cn) == 0
}

// Sign makes the signature with the nonce k.
func Sign(hash [32]byte, sec, k *big.Int) (pub, c, r [32]byte) {
	pub = Base.Mul(sec).Bytes()
	comm := Base.Mul(k).Bytes()
	cn := HashScalar(hash[:], pub[:], comm[:])
	return pub, LE32(cn), LE32(SubL(k, MulL(cn, sec)))
}

// HashPub is the point for the public key used by key images.
func HashPub(pub [32]byte) Point { return HashToPoint(Keccak(pub[:])) }

// KeyImage of the key.
func KeyImage(pub [32]byte, sec *big.Int) Point { return HashPub(pub).Mul(sec) }

// CheckRing verifies the ring signature.
func CheckRing(prefix, image [32]byte, pubs [][32]byte, sigs [][2][32]byte, checkImage bool) bool {
	if len(pubs) != len(sigs) {
		return false
	}
	I, ok := Decode(image)
	if !ok {
		return false
	}
	if checkImage && !I.InSubgroup() {
		return false
	}
	sum := new(big.Int)
	buf := append([]byte{}, prefix[:]...)
	for i := range pubs {
		A, ok := Decode(pubs[i])
		if !ok {
			return false
		}
		c, ok1 := canonical(sigs[i][0])
		r, ok2 := canonical(sigs[i][1])
		if !ok1 || !ok2 {
			return false
		}
		x := A.Mul(c).Add(Base.Mul(r)).Bytes()
		y := HashPub(pubs[i]).Mul(r).Add(I.Mul(c)).Bytes()
		buf = append(append(buf, x[:]...), y[:]...)
		sum = AddL(sum, c)
	}
	return HashScalar(buf).Cmp(sum) == 0
}

// SignRing makes the ring signature. The image may be any point, rnd gives random scalars. It returns false when
// the equation does not hold because of the torsion of the image, then it is to be tried again.
func SignRing(prefix [32]byte, I Point, pubs [][32]byte, sec *big.Int, idx int, rnd func() *big.Int) ([][2][32]byte, bool) {
	sigs := make([][2][32]byte, len(pubs))
	sum := new(big.Int)
	buf := append([]byte{}, prefix[:]...)
	k := rnd()
	for i := range pubs {
		var X, Y Point
		if i == idx {
			X, Y = Base.Mul(k), HashPub(pubs[i]).Mul(k)
		} else {
			A, _ := Decode(pubs[i])
			c, r := rnd(), rnd()
			sigs[i] = [2][32]byte{LE32(c), LE32(r)}
			X = A.Mul(c).Add(Base.Mul(r))
			Y = HashPub(pubs[i]).Mul(r).Add(I.Mul(c))
			sum = AddL(sum, c)
		}
		x, y := X.Bytes(), Y.Bytes()
		buf = append(append(buf, x[:]...), y[:]...)
	}
	c := SubL(HashScalar(buf), sum)
	r := SubL(k, MulL(c, sec))
	sigs[idx] = [2][32]byte{LE32(c), LE32(r)}
	return sigs, HashPub(pubs[idx]).Mul(r).Add(I.Mul(c)).Equal(HashPub(pubs[idx]).Mul(k))
}
