package sim

import (
	"math/big"
	"math/rand"
	"sort"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/ref"
)

type outRef struct {
	Amount uint64
	Index  uint32
}

// OutLimit is how many outputs of every amount exist for the test double of the output index.
const OutLimit = 1000000

// Out is the key of the output.
func (w *World) Out(amount uint64, i uint32) ([32]byte, bool) {
	if i >= OutLimit {
		return [32]byte{}, false
	}
	w.omu.Lock()
	k, ok := w.outs[outRef{amount, i}]
	w.omu.Unlock()
	if ok {
		return k.Pub, true
	}
	p := Pool()
	return p[(amount*7+uint64(i))%uint64(len(p))].Pub, true
}

// Ring finds the keys of the outputs.
func (w *World) Ring(amount uint64, indexes []uint32) (r [][32]byte, ok bool) {
	for _, i := range indexes {
		k, ok := w.Out(amount, i)
		if !ok {
			return nil, false
		}
		r = append(r, k)
	}
	return r, true
}

// TxOpt shapes a transaction.
type TxOpt struct {
	Fusion  bool
	Plain   bool   // no rings and nothing random that costs time
	Fee     uint64 // over the least one
	Exact   bool   // pay exactly the least fee
	Ring    int
	Inputs  int
	Outputs int
	Extra   []byte
	In, Out []uint64                        // exact amounts of inputs and outputs
	Spend   []*Made                         // inputs that come first
	Prefix  func(t *cryptonote.Transaction) // changes the prefix before it is signed
}

// Made is an input that can be signed.
type Made struct {
	Input cryptonote.InputKey
	s     signer
}

// Make an input that spends a new output.
func (w *World) Make(amount uint64, ring int, cheap bool) *Made {
	k, s := w.input(amount, ring, cheap)
	return &Made{k, s}
}

// Again spends the same output with another ring.
func (w *World) Again(m *Made, ring int) *Made {
	k, s := w.inputOf(m.Input.Amount, ring, &m.s)
	return &Made{k, s}
}

// split makes n parts of sum, every at least min.
func split(r *rand.Rand, sum uint64, n int, min uint64) []uint64 {
	res := make([]uint64, n)
	rest := sum - uint64(n)*min
	for i := range res {
		res[i] = min
		if i == n-1 {
			res[i] += rest
		} else if rest > 0 {
			p := uint64(r.Int63()) % (rest/uint64(n-i)*2 + 1)
			if p > rest {
				p = rest
			}
			res[i] += p
			rest -= p
		}
	}
	r.Shuffle(n, func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

// Pow10 is the power of ten.
func Pow10(n int) uint64 {
	v := uint64(1)
	for ; n > 0; n-- {
		v *= 10
	}
	return v
}

// NewTx makes a transaction that is right for the next block.
func (w *World) NewTx(o TxOpt) *cryptonote.Transaction {
	r := w.R
	idx := w.M.Top().Index + 1
	t := &cryptonote.Transaction{}
	t.Version = 1
	t.Extra = o.Extra
	if t.Extra == nil {
		t.Extra = append([]byte{1}, gen.Bytes(r, 32)...)
		switch r.Intn(6) {
		case 0:
			t.Extra = gen.Bytes(r, 60+r.Intn(80))
		case 1:
			t.Extra = gen.Bytes(r, 99+r.Intn(4))
		case 2:
			t.Extra = gen.Bytes(r, r.Intn(1500))
		}
	}
	var in, out []uint64
	if o.In != nil {
		in, out = o.In, o.Out
	} else if o.Fusion {
		k := 1 + r.Intn(3)
		n := 12
		if 4*k > n {
			n = 4 * k
		}
		n += r.Intn(5)
		pos := r.Perm(9)[:k]
		sum := uint64(0)
		for _, p := range pos {
			d := uint64(1+r.Intn(9)) * Pow10(p+9)
			sum += d
		}
		for sum < uint64(n)*100000000 {
			n--
		}
		if n < 12 {
			sum, k, n = 50000000000, 1, 12
		}
		min := uint64(1)
		if idx < V4 {
			min = 100000000
		}
		in = split(r, sum, n, min)
		dust := uint64(0)
		if idx < V4 {
			dust = 100000000
		}
		out = Digits(sum, dust)
	} else {
		n := o.Outputs
		if n == 0 {
			n = 1 + r.Intn(4)
		}
		sum := uint64(0)
		spent := uint64(0)
		for _, m := range o.Spend {
			spent += m.Input.Amount
		}
		if spent > 0 {
			a := uint64(10)
			for a < spent {
				a *= 10
			}
			out = append(out, a)
			sum += a
		}
		for i := 0; i < n; i++ {
			a := uint64(1+r.Intn(9)) * Pow10(r.Intn(14))
			if idx < V5 && r.Intn(2) == 0 {
				a = 1 + uint64(r.Int63n(1e14))
			}
			out = append(out, a)
			sum += a
		}
		fee := FeeFloor(idx)
		if e := ExtraFee(idx, uint64(len(t.Extra))); e > fee {
			fee = e
		}
		fee += o.Fee
		if !o.Exact && o.Fee == 0 && r.Intn(3) > 0 {
			fee += uint64(r.Int63n(1e12))
		}
		m := o.Inputs
		if m == 0 {
			m = 1 + r.Intn(3)
		}
		in = split(r, sum+fee-spent, m, 1)
	}
	for _, a := range out {
		t.Outputs = append(t.Outputs, cryptonote.TransactionOutput{Amount: a, Target: cryptonote.OutputKey{PublicKey: outKey(r).Pub}})
	}
	zone := w.M.InZone(idx)
	var signers []signer
	for _, m := range o.Spend {
		t.Inputs = append(t.Inputs, m.Input)
		signers = append(signers, m.s)
	}
	for i, a := range in {
		n := o.Ring
		if n == 0 {
			n = 1 + r.Intn(4)
			if zone && r.Intn(4) == 0 {
				n = 1 + r.Intn(20)
				if idx <= V3s1 {
					n = 1 + r.Intn(30)
				}
			}
		}
		if i > 0 && o.Ring > 0 {
			n = 1 + r.Intn(o.Ring)
		}
		k, s := w.input(a, n, zone && o.Plain)
		t.Inputs = append(t.Inputs, k)
		signers = append(signers, s)
	}
	if o.Prefix != nil {
		o.Prefix(t)
	}
	w.SignTx(t, signers, zone)
	return t
}

type signer struct {
	key  Key
	at   int
	abs  uint32
	ring [][32]byte
	img  ref.Point
}

// input spends a new output of the amount.
func (w *World) input(amount uint64, n int, cheap bool) (k cryptonote.InputKey, s signer) {
	if cheap {
		k, _ = w.inputOf(amount, n, nil)
		// a multiple of the base point that is easy to get
		b := gen.B32(w.R)
		p := ref.HashToPoint(b)
		k.KeyImage = p.Bytes()
		return
	}
	return w.inputOf(amount, n, &signer{key: NewKey(w.R), abs: uint32(w.R.Intn(OutLimit))})
}

// inputOf spends the output of the signer, of noone when it is nil.
func (w *World) inputOf(amount uint64, n int, of *signer) (k cryptonote.InputKey, s signer) {
	r := w.R
	set := map[uint32]bool{}
	if of != nil {
		set[of.abs] = true
	}
	for len(set) < n {
		if r.Intn(20) == 0 {
			set[0] = true
		} else {
			set[uint32(r.Intn(OutLimit))] = true
		}
	}
	var abs []uint32
	for i := range set {
		abs = append(abs, i)
	}
	sort.Slice(abs, func(i, j int) bool { return abs[i] < abs[j] })
	k.Amount = amount
	for i, a := range abs {
		if i > 0 {
			a -= abs[i-1]
		}
		k.OutputIndexes = append(k.OutputIndexes, a)
	}
	if of == nil {
		return
	}
	s = *of
	for i, a := range abs {
		if a == s.abs {
			s.at = i
		}
	}
	w.omu.Lock()
	w.outs[outRef{amount, s.abs}] = s.key
	w.omu.Unlock()
	s.ring, _ = w.Ring(amount, abs)
	s.img = ref.KeyImage(s.key.Pub, s.key.Sec)
	k.KeyImage = s.img.Bytes()
	return
}

// SignTx sets signatures, random ones in the checkpoint zone.
func (w *World) SignTx(t *cryptonote.Transaction, ss []signer, zone bool) {
	r := w.R
	t.TransactionSignatures = nil
	prefix := ref.Keccak(cn.Prefix(&t.TransactionPrefix))
	rnd := func() *big.Int { b := gen.B32(r); return ref.ModL(b[:]) }
	for i, x := range t.Inputs {
		k, ok := x.(cryptonote.InputKey)
		var sigs []crypto.Signature
		if ok && !zone && i < len(ss) && len(ss[i].ring) == len(k.OutputIndexes) {
			rs, _ := ref.SignRing(prefix, ss[i].img, ss[i].ring, ss[i].key.Sec, ss[i].at, rnd)
			for _, s := range rs {
				sigs = append(sigs, crypto.Signature{C: s[0], R: s[1]})
			}
		} else if ok {
			for range k.OutputIndexes {
				sigs = append(sigs, crypto.Signature{C: gen.B32(r), R: gen.B32(r)})
			}
		}
		t.TransactionSignatures = append(t.TransactionSignatures, sigs)
	}
}
