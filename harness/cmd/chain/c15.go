package main

import (
	"math"
	"math/rand"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
)

type txs = []*cryptonote.Transaction

// txCase makes transactions for the next block, nil when the case does not fit.
type txCase struct {
	name string
	f    func(w *sim.World) txs
}

func usual(w *sim.World) sim.TxOpt {
	o := sim.TxOpt{Inputs: 1 + w.R.Intn(3)}
	if !w.M.InZone(index(w)) {
		o.Ring = 1 + w.R.Intn(3)
	}
	return o
}

// altered signs the prefix after the change.
func altered(f func(w *sim.World, t *cryptonote.Transaction) bool) func(w *sim.World) txs {
	return func(w *sim.World) txs {
		ok := true
		o := usual(w)
		o.Prefix = func(t *cryptonote.Transaction) { ok = f(w, t) }
		x := w.NewTx(o)
		if !ok {
			return nil
		}
		return txs{x}
	}
}

// damaged changes the transaction after it was signed.
func damaged(f func(w *sim.World, t *cryptonote.Transaction) bool) func(w *sim.World) txs {
	return func(w *sim.World) txs {
		x := w.NewTx(usual(w))
		if !f(w, x) {
			return nil
		}
		return txs{x}
	}
}

func input(w *sim.World, t *cryptonote.Transaction, f func(k *cryptonote.InputKey)) bool {
	i := w.R.Intn(len(t.Inputs))
	k := t.Inputs[i].(cryptonote.InputKey)
	f(&k)
	t.Inputs[i] = k
	return true
}

func anySig(w *sim.World, t *cryptonote.Transaction) *crypto.Signature {
	s := t.TransactionSignatures[w.R.Intn(len(t.Inputs))]
	return &s[w.R.Intn(len(s))]
}

func key(w *sim.World) cryptonote.OutputKey {
	return cryptonote.OutputKey{PublicKey: sim.Pool()[w.R.Intn(64)].Pub}
}

// amounts makes a transaction with exact amounts.
func amounts(f func(w *sim.World) (in, out []uint64, extra int)) func(w *sim.World) txs {
	return func(w *sim.World) txs {
		in, out, extra := f(w)
		if in == nil {
			return nil
		}
		o := usual(w)
		o.In, o.Out, o.Extra = in, out, gen.Bytes(w.R, extra)
		return txs{w.NewTx(o)}
	}
}

func least(w *sim.World, extra int) uint64 {
	i := index(w)
	f := sim.FeeFloor(i)
	if e := sim.ExtraFee(i, uint64(extra)); e > f {
		f = e
	}
	return f
}

func pretty(w *sim.World) uint64 { return uint64(1+w.R.Intn(9)) * sim.Pow10(w.R.Intn(15)) }

// fusion makes amounts of a fusion transaction.
func fusion(w *sim.World) (in, out []uint64) {
	x := w.NewTx(sim.TxOpt{Fusion: true, Plain: true, Extra: []byte{}})
	for _, i := range x.Inputs {
		in = append(in, i.(cryptonote.InputKey).Amount)
	}
	for _, o := range x.Outputs {
		out = append(out, o.Amount)
	}
	return
}

// fused changes amounts of a fusion transaction.
func fused(f func(w *sim.World, in, out []uint64) ([]uint64, []uint64)) func(w *sim.World) txs {
	return amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		in, out := fusion(w)
		in, out = f(w, in, out)
		return in, out, w.R.Intn(200)
	})
}

// paying makes transactions with the fees.
func paying(w *sim.World, fees []uint64) (l txs) {
	for _, f := range fees {
		o := usual(w)
		out := uint64(1000000)
		if f > math.MaxUint64-out {
			f -= out
		}
		o.In, o.Out = []uint64{f, out}, []uint64{out}
		l = append(l, w.NewTx(o))
	}
	return
}

// wrapping is a list of amounts whose sum is not the given one but the same in 64 bits.
func wrapping(r *rand.Rand, sum uint64) (l []uint64) {
	for {
		n := 2 + r.Intn(4)
		l = l[:0]
		left := sum
		for i := 1; i < n; i++ {
			a := r.Uint64() >> uint([]int{0, 0, 1, 1, 2, 20, 40}[r.Intn(7)])
			switch r.Intn(8) {
			case 0:
				a = math.MaxUint64 - uint64(r.Intn(3))
			case 1:
				a = 1 << 63
			case 2:
				a = sum/2 + uint64(r.Intn(3))
			}
			l = append(l, a)
			left -= a
		}
		l = append(l, left)
		r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
		t, over, zero := uint64(0), false, false
		for _, a := range l {
			over, zero = over || a > math.MaxUint64-t, zero || a == 0
			t += a
		}
		if over && !zero {
			return
		}
	}
}

// rich makes an input that pays a fee of any height.
func rich(w *sim.World) *sim.Made { return w.Make(richFee+pretty(w), 1+w.R.Intn(2), false) }

const richFee = 200000000000

// spend makes a transaction with the rich input, often with no other one.
func spend(w *sim.World, m *sim.Made) *cryptonote.Transaction {
	o := usual(w)
	o.Spend = []*sim.Made{m}
	switch w.R.Intn(4) { // not the first input
	case 0:
		o.Spend = []*sim.Made{w.Make(pretty(w), 1+w.R.Intn(2), false), m}
	case 1:
		o.Spend = []*sim.Made{w.Make(pretty(w), 1, false), m, w.Make(pretty(w), 1, false)}
	}
	if w.R.Intn(3) > 0 {
		o.In, o.Out = []uint64{}, []uint64{m.Input.Amount - richFee}
		o.Extra = gen.Bytes(w.R, w.R.Intn(100))
	}
	return w.NewTx(o)
}

var txCases = []txCase{
	{"usual", altered(func(w *sim.World, t *cryptonote.Transaction) bool { return true })},
	{"several", func(w *sim.World) (r txs) {
		for i := 0; i < 3; i++ {
			r = append(r, w.NewTx(usual(w)))
		}
		return
	}},
	{"unlock height", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		t.UnlockHeight = gen.U64(w.R)
		return true
	})},
	{"fusion", func(w *sim.World) txs {
		o := usual(w)
		o.Fusion, o.Inputs = true, 0
		return txs{w.NewTx(o)}
	}},
	{"least fee", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		n := []int{0, 1, 99, 100, 101, 102, 150, 200, 300, 1000}[w.R.Intn(10)]
		a := pretty(w)
		return []uint64{a + least(w, n)}, []uint64{a}, n
	})},
	{"less than the least fee", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		n := []int{0, 1, 99, 100, 101, 102, 150, 200, 300, 1000}[w.R.Intn(10)]
		a := pretty(w)
		return []uint64{a + least(w, n) - 1}, []uint64{a}, n
	})},
	{"fee without the extra", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		n := 101 + w.R.Intn(300)
		a := pretty(w)
		return []uint64{a + least(w, 0)}, []uint64{a}, n
	})},
	{"no fee", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := pretty(w)
		return []uint64{a}, []uint64{a}, 10
	})},
	{"no fee and many inputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a, b := pretty(w), 2*sim.Pow10(9)
		in := []uint64{a}
		for i := 0; i < 20; i++ {
			in = append(in, b/20)
		}
		return in, []uint64{a, b / 2, b / 2}, 10
	})},
	{"more than inputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := 1000 + pretty(w)
		a -= a % 10
		d := []uint64{1, 2, 10, a / 2}[w.R.Intn(4)]
		return []uint64{a - d}, sim.Digits(a, 0), 10
	})},
	{"overflowing inputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		// sums to a and the fee after it wraps
		a := pretty(w)
		return wrapping(w.R, a+2*least(w, 10)), []uint64{a}, 10
	})},
	{"inputs at the limit", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		x := uint64(w.R.Int63())
		return []uint64{math.MaxUint64 - x, x}, sim.Digits(math.MaxUint64-least(w, 10), 0), 10
	})},
	{"overflowing outputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := 1000000 + pretty(w)*10
		rest := a
		out := []uint64{10000000000000000000}
		out = append(out, sim.Digits(rest-out[0], 0)...) // wraps
		w.R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return []uint64{a + 2*least(w, 10)}, out, 10
	})},
	{"overflowing outputs in one", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := pretty(w)
		return []uint64{a + least(w, 10)}, wrapping(w.R, a), 10
	})},
	{"overflowing fees", func(w *sim.World) txs {
		return paying(w, wrapping(w.R, uint64(w.R.Int63n(1e15))))
	}},
	{"large fees", func(w *sim.World) txs { // and their sum is right
		left := uint64(w.R.Int63())<<1 - uint64(w.R.Intn(2))
		var fees []uint64
		for k := w.R.Intn(4); k > 0 && left > 1e15; k-- {
			f := left/2 + uint64(w.R.Int63n(int64(left/2)))
			left -= f
			fees = append(fees, f)
		}
		if len(fees) == 0 {
			fees = append(fees, left)
		}
		w.R.Shuffle(len(fees), func(i, j int) { fees[i], fees[j] = fees[j], fees[i] })
		return paying(w, fees)
	}},
	{"zero input", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := pretty(w)
		return []uint64{0, a + least(w, 5)}, []uint64{a}, 5
	})},
	{"zero inputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		return []uint64{0}, []uint64{}, 5
	})},
	{"zero output", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := pretty(w)
		return []uint64{a + least(w, 5)}, []uint64{a, 0}, 5
	})},
	{"no outputs", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		return []uint64{pretty(w) + least(w, 5)}, []uint64{}, 5
	})},
	{"output with many digits", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		a := []uint64{11, 101, 1000001, 12, 99, 10000000000000000001, 18000000000000000000, 1e10 + 1, uint64(w.R.Int63n(1e15)) + 10}[w.R.Intn(9)]
		if a > 1e19 {
			return []uint64{a - 1, 1 + least(w, 5)}, []uint64{a}, 5
		}
		return []uint64{a + least(w, 5)}, []uint64{a}, 5
	})},
	{"every pretty amount", amounts(func(w *sim.World) ([]uint64, []uint64, int) {
		k := w.R.Intn(20)
		d := uint64(1 + w.R.Intn(9))
		if k == 19 {
			d = 1
		}
		a := d * sim.Pow10(k)
		return []uint64{a, least(w, 5)}, []uint64{a}, 5
	})},
	{"output key", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		t.Outputs[w.R.Intn(len(t.Outputs))].Target = cryptonote.OutputKey{PublicKey: gen.PointBytes(w.R)}
		return true
	})},
	{"no inputs", func(w *sim.World) txs {
		x := w.NewTx(usual(w))
		x.Inputs, x.TransactionSignatures = nil, nil
		return txs{x}
	}},
	{"coinbase input", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		i := cryptonote.InputCoinbase{BlockIndex: index(w)}
		if w.R.Intn(2) == 0 {
			t.Inputs = append(t.Inputs, i)
		} else {
			t.Inputs = txInputs{i}
		}
		return true
	})},
	{"empty ring", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) { k.OutputIndexes = nil })
	})},
	{"same image in transaction", func(w *sim.World) txs {
		m := w.Make(1000+pretty(w), 2, false)
		o := usual(w)
		o.Spend = []*sim.Made{m, m}
		if w.R.Intn(2) == 0 {
			o.Spend[1] = w.Again(m, 1+w.R.Intn(3))
		}
		return txs{w.NewTx(o)}
	}},
	{"same image in block", func(w *sim.World) txs {
		m := rich(w)
		r := txs{spend(w, m), spend(w, w.Again(m, 1+w.R.Intn(3)))}
		if w.R.Intn(2) == 0 { // not next to each other
			r = txs{r[0], w.NewTx(usual(w)), r[1]}
		}
		return r
	}},
	{"spent image", func(w *sim.World) txs {
		if w.Saved == nil {
			return nil
		}
		return txs{spend(w, w.Again(w.Saved, 1+w.R.Intn(3)))}
	}},
	{"to be spent", func(w *sim.World) txs {
		w.Saved = rich(w)
		return txs{spend(w, w.Saved)}
	}},
	{"image", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) {
			switch w.R.Intn(4) {
			case 0:
				k.KeyImage = gen.B32(w.R)
			case 1:
				k.KeyImage = gen.PointBytes(w.R)
			case 2:
				k.KeyImage[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
			case 3:
				k.KeyImage = ref.HashToPoint(gen.B32(w.R)).Bytes()
			}
		})
	})},
	{"image out of the subgroup", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) {
			p, ok := ref.Decode(k.KeyImage)
			if ok {
				k.KeyImage = p.Add(gen.Torsion[1+w.R.Intn(7)]).Bytes()
			}
		})
	})},
	{"same outputs in ring", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) { k.OutputIndexes = append(k.OutputIndexes, 0) })
	})},
	{"zero offset in the middle", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) {
			k.OutputIndexes = append([]uint32{k.OutputIndexes[0], 0}, k.OutputIndexes[1:]...)
			k.OutputIndexes = append(k.OutputIndexes, 7)
		})
	})},
	{"ring of the same outputs", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) { k.OutputIndexes = []uint32{0, 0} })
	})},
	{"ring wraps", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) {
			k.OutputIndexes = append(k.OutputIndexes, math.MaxUint32-uint32(w.R.Intn(5)))
		})
	})},
	{"unknown outputs", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) {
			k.OutputIndexes = append(k.OutputIndexes, sim.OutLimit+uint32(w.R.Intn(100)))
		})
	})},
	{"other ring", altered(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) { k.OutputIndexes[0]++ })
	})},
	{"other amount of ring", damaged(func(w *sim.World, t *cryptonote.Transaction) bool {
		return input(w, t, func(k *cryptonote.InputKey) { k.Amount++ })
	})},
	{"big ring", func(w *sim.World) txs {
		if !w.M.InZone(index(w)) && w.R.Intn(4) > 0 { // takes time
			return nil
		}
		o := usual(w)
		o.Inputs = 1
		o.Ring = []int{19, 20, 20, 21, 21, 22, 40}[w.R.Intn(7)]
		return txs{w.NewTx(o)}
	}},
	{"big ring is not the first", func(w *sim.World) txs {
		if !w.M.InZone(index(w)) {
			return nil
		}
		o := usual(w)
		o.Spend = []*sim.Made{w.Make(1+pretty(w), 1, true), w.Make(1+pretty(w), 20+w.R.Intn(2), true), w.Make(1+pretty(w), 3, true)}
		return txs{w.NewTx(o)}
	}},
	{"altered signature", damaged(func(w *sim.World, t *cryptonote.Transaction) bool {
		s := anySig(w, t)
		switch w.R.Intn(5) {
		case 0:
			s.C[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
		case 1:
			s.R[w.R.Intn(32)] ^= 1 << uint(w.R.Intn(8))
		case 2:
			s.R = addOrder(s.R)
		case 3:
			s.C = addOrder(s.C)
		case 4:
			*s = crypto.Signature{}
		}
		return true
	})},
	{"swapped signatures", damaged(func(w *sim.World, t *cryptonote.Transaction) bool {
		s := t.TransactionSignatures[0]
		if len(s) < 2 {
			return false
		}
		s[0], s[1] = s[1], s[0]
		return true
	})},
	{"second signature is wrong", damaged(func(w *sim.World, t *cryptonote.Transaction) bool {
		n := len(t.Inputs)
		if n < 2 {
			return false
		}
		s := t.TransactionSignatures[n-1]
		s[len(s)-1].R[0] ^= 1
		return true
	})},
	{"altered prefix", damaged(func(w *sim.World, t *cryptonote.Transaction) bool {
		switch w.R.Intn(4) {
		case 0:
			t.UnlockHeight++
		case 1:
			t.Extra = append(append([]byte{}, t.Extra...), 0)
			return len(t.Extra) < 100
		case 2:
			t.Outputs[0].Target = key(w)
		case 3:
			n := len(t.Outputs)
			if n < 2 {
				return false
			}
			t.Outputs[0], t.Outputs[n-1] = t.Outputs[n-1], t.Outputs[0]
		}
		return true
	})},
	{"size", func(w *sim.World) txs {
		if index(w) > sim.V4s2 && w.M.Rings != nil && w.R.Intn(2) == 0 {
			return nil
		}
		o := usual(w)
		o.Inputs, o.Outputs = 1, 1
		n := 249400
		if w.R.Intn(4) == 0 {
			n = 249000 // and the header of the transaction
		}
		if w.R.Intn(6) == 0 {
			n = 300000
		}
		n += []int{0, 1, 1, -1, 100}[w.R.Intn(5)]
		// output keys of same amount keep the size apart from extra
		o.In, o.Out = []uint64{1e15 + 1e17}, []uint64{1e15}
		o.Extra = make([]byte, n-1000)
		x := w.NewTx(o)
		o.Extra = make([]byte, n-1000+n-len(cn.Tx(x)))
		o.Prefix = nil
		m := w.NewTx(o)
		if d := n - len(cn.Tx(m)); d != 0 { // index varints differ
			m.Extra = make([]byte, len(m.Extra)+d)
			if !w.M.InZone(index(w)) {
				return nil
			}
		}
		return txs{m}
	}},
	{"fusion of some size", func(w *sim.World) txs {
		o := usual(w)
		in, out := fusion(w)
		n := []int{30000, 300000}[w.R.Intn(2)] + []int{0, 1, 1, -1, 100}[w.R.Intn(5)]
		o.In, o.Out, o.Ring = in, out, 1
		o.Extra = make([]byte, n-2000)
		x := w.NewTx(o)
		for k := 0; k < 4 && len(cn.Tx(x)) != n; k++ {
			d := n - len(cn.Tx(x))
			if w.M.InZone(index(w)) {
				x.Extra = make([]byte, len(x.Extra)+d)
				break
			}
			o.Extra = make([]byte, len(o.Extra)+d)
			x = w.NewTx(o)
		}
		return txs{x}
	}},
	{"fusion with a fee", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		in[0] += uint64(1 + w.R.Intn(1000))
		return in, out
	})},
	{"fusion of few inputs", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		for len(in) > 11 {
			in[0] += in[len(in)-1]
			in = in[:len(in)-1]
		}
		return in, out
	})},
	{"fusion with little compression", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		// 12 inputs, 4 digits in the sum
		in = nil
		s := uint64(1111 * sim.Pow10(9))
		for i := 0; i < 11+w.R.Intn(8); i++ {
			in = append(in, 5*sim.Pow10(9))
			s -= 5 * sim.Pow10(9)
		}
		return append(in, s), sim.Digits(1111*sim.Pow10(9), 0)
	})},
	{"fusion with parted outputs", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		a := out[0]
		if a%2 == 1 || a < 4 {
			return nil, nil
		}
		out = append([]uint64{a / 2, a / 2}, out[1:]...)
		for len(in) < 4*len(out) {
			in[0] -= 200000000
			in = append(in, 200000000)
		}
		return in, out
	})},
	{"fusion in other order", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		if len(out) < 2 {
			return nil, nil
		}
		out[0], out[1] = out[1], out[0]
		return in, out
	})},
	{"fusion of dust", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		d := []uint64{1, 99999999, 100000000}[w.R.Intn(3)]
		in[0] += in[1] - d
		in[1] = d
		return in, out
	})},
	{"fusion to dust", fused(func(w *sim.World, in, out []uint64) ([]uint64, []uint64) {
		// sum has small digits, that make one output before the fourth version
		s := 3*sim.Pow10(11) + 20000000 + 3000000
		in = nil
		left := s
		for i := 0; i < 15; i++ {
			in = append(in, sim.Pow10(9))
			left -= sim.Pow10(9)
		}
		in = append(in, left)
		return in, sim.Digits(s, []uint64{0, 100000000}[w.R.Intn(2)])
	})},
}

// addOrder gives the same scalar in other form, when there is a place for it.
func addOrder(b [32]byte) [32]byte {
	n := ref.FromLE(b[:])
	if n.Add(n, ref.Order).BitLen() > 256 {
		n.SetInt64(5)
	}
	return ref.LE32(n)
}

func caseOf(name string) *txCase {
	for i := range txCases {
		if txCases[i].name == name {
			return &txCases[i]
		}
	}
	return nil
}

type txInputs = []cryptonote.TransactionInput

func c15(c *mon.Ctx) {
	c.Rule("A case is a chain near some upgrade height, in the checkpoint zone or with test doubles for the output keys. Blocks, that are right apart from one aimed fault in their transactions, are given to the real chain; its verdict and the state after it are compared with the reference model of the rules for amounts, fees, rings, images, keys and sizes. Non trivial: a transaction that decides about the block.")
	c.Assume("Output keys of rings are found by a test double put in with the overlay, as the real search is a stub.")
	c.Assume("Multisignature inputs and outputs are out of scope.")

	c.Par("transactions", c.N(400, 9000), func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		o.Size = nil
		if r.Intn(4) == 0 {
			o.Top = []uint32{sim.V3s1, sim.V4, sim.V4s2, sim.V4s3, sim.V5}[r.Intn(5)] + uint32(r.Intn(3)) - 2
		}
		w := world(t, o)
		if haveRings {
			setRings(w)
		}
		defer dropRings(w)
		switch r.Intn(6) {
		case 0, 1:
			zone(t, w, o.Top+uint32(r.Intn(4)))
		case 2:
			zone(t, w, o.Top+100)
		}
		for k := 0; k < 10; k++ {
			i := index(w)
			if _, ok := w.M.Points[i]; ok || !w.M.InZone(i) && !haveRings {
				break
			}
			cs := &txCases[r.Intn(len(txCases))]
			if cs.name == "size" && r.Intn(3) > 0 {
				cs = &txCases[0]
			}
			if w.Saved != nil && r.Intn(3) == 0 {
				cs = caseOf("spent image")
			} else if w.Saved == nil && r.Intn(6) == 0 {
				cs = caseOf("to be spent")
			}
			list := cs.f(w)
			if list == nil {
				continue
			}
			if r.Intn(3) == 0 {
				x := w.NewTx(usual(w))
				if r.Intn(2) == 0 {
					list = append(list, x)
				} else {
					list = append(txs{x}, list...)
				}
			}
			t.SetDesc("case %s, index %d, zone %v", cs.name, i, w.M.InZone(i))
			b := w.Draft(0, list...)
			w.Finish(b)
			if !w.M.InZone(i) && r.Intn(4) == 0 {
				// the block is the last one of the checkpoint zone
				checkpoint(t, w, i, cn.ID(b.B))
			}
			if submit(t, w, b, "case "+cs.name) {
				t.Count("accepted: "+cs.name, 1)
			} else {
				t.Count("refused: "+cs.name, 1)
			}
			for _, x := range list {
				t.Distinct(cn.Tx(x))
			}
		}
		auditFull(t, w, "end")
	})

	// Every case at every block around the upgrades.
	var edges []uint32
	for _, b := range []uint32{sim.V2, sim.V3, sim.V3s1, sim.V4, sim.V4s1, sim.V4s2, sim.V4s3, sim.V5} {
		edges = append(edges, b-1, b, b+1)
	}
	c.ParL("edges", c.N(4*len(edges), 40*len(edges)), 8, 300*time.Second, func(t *mon.T) {
		r := t.Rng
		at := edges[t.I%len(edges)]
		inZone := t.I/len(edges)%2 == 0
		if !inZone && !haveRings {
			return
		}
		var w *sim.World
		fresh := func() {
			if w != nil {
				dropRings(w)
			}
			w = world(t, sim.Options{Top: at - 1})
			if haveRings {
				setRings(w)
			}
			if inZone {
				zone(t, w, at+1+uint32(r.Intn(2)))
			}
		}
		fresh()
		defer func() { dropRings(w) }()
		again := map[string]int{"fusion of some size": 8, "fusion of dust": 4, "fusion to dust": 4, "size": 4, "least fee": 3, "less than the least fee": 3}
		var order []int
		for k := range txCases {
			order = append(order, k)
			for j := again[txCases[k].name]; j > 0; j-- {
				order = append(order, k)
			}
		}
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, k := range order {
			cs := &txCases[k]
			if cs.name == "to be spent" || cs.name == "spent image" {
				continue
			}
			list := cs.f(w)
			if list == nil {
				continue
			}
			t.SetDesc("case %s, index %d, zone %v", cs.name, at, inZone)
			b := w.Draft(0, list...)
			w.Finish(b)
			if submit(t, w, b, "case "+cs.name) {
				t.Count("accepted at the edge", 1)
				fresh()
			} else {
				t.Count("refused at the edge", 1)
			}
			for _, x := range list {
				t.Distinct(cn.Tx(x))
			}
		}
	})
	c.Require("accepted at the edge", 200)
	c.Require("refused at the edge", 400)

	// Blocks with many images: every one of them is spent, in its block and after it.
	if haveRings {
		c.ParL("crowded blocks", c.N(16, 240), 8, 300*time.Second, func(t *mon.T) {
			r := t.Rng
			w := world(t, sim.Options{Top: sim.V4 + 1000 + uint32(r.Intn(3)), Coins: 1e18})
			setRings(w)
			defer dropRings(w)
			var all []*sim.Made
			for k := 0; k < 3; k++ {
				var list txs
				var ms []*sim.Made
				for n := []int{3, 40, 130, 300}[t.I%4]; len(ms) < n; {
					o := sim.TxOpt{Ring: 1}
					for j := 1 + r.Intn(1+n/8); j > 0 && len(ms) < n; j-- {
						m := w.Make(richFee+pretty(w), 1, false)
						o.Spend = append(o.Spend, m)
						ms = append(ms, m)
					}
					list = append(list, w.NewTx(o))
				}
				twice := ms[r.Intn(len(ms))]
				for _, at := range []int{len(list), r.Intn(len(list) + 1)} {
					l := append(append(append(txs{}, list[:at]...), spend(w, w.Again(twice, 1+r.Intn(2)))), list[at:]...)
					b := w.Draft(0, l...)
					w.Finish(b)
					if submit(t, w, b, "block with an image twice") {
						t.Failf("accepted")
					}
					t.Count("images twice in a crowded block", 1)
				}
				b := w.Draft(0, list...)
				w.Finish(b)
				if !submit(t, w, b, "crowded block") {
					t.Count("crowded blocks left out", 1)
					break
				}
				t.Count("crowded blocks", 1)
				all = append(all, ms...)
				for j := 0; j < 12; j++ {
					m := all[r.Intn(len(all))]
					switch j {
					case 0:
						m = all[len(all)-1]
					case 1:
						m = all[0]
					case 2:
						m = all[len(all)-len(ms)]
					}
					b := w.Draft(0, spend(w, w.Again(m, 1+r.Intn(3))))
					w.Finish(b)
					if submit(t, w, b, "image of a crowded block") {
						t.Failf("accepted")
					}
					t.Count("images of crowded blocks spent again", 1)
				}
				for _, x := range list {
					t.Distinct(cn.Tx(x))
				}
			}
		})
		c.Require("crowded blocks", 20)
		c.Require("images of crowded blocks spent again", 200)
	}

	// What the stub does.
	c.Seq("output keys", 1, func(t *mon.T) {
		w := world(t, sim.Options{Top: 750000})
		w.M.Rings = w.Ring
		refused := 0
		for k := 0; k < 5; k++ {
			x := next(t, w, w.NewTx(sim.TxOpt{Inputs: 1, Ring: 2}))
			if err := w.BC.AddBlock(x.Clone().B, x.Raw); err != nil {
				refused++
			}
		}
		if refused == 5 {
			t.Finding("ring-keys-stub", "transactions are not accepted outside of the checkpoint zone, whatever outputs the rings refer to")
		}
	})
	c.Par("order of outputs", c.N(400, 4000), func(t *mon.T) {
		r := t.Rng
		w := world(t, sim.Options{})
		n := r.Intn(6)
		var l []uint32
		for i := 0; i < n; i++ {
			l = append(l, uint32(r.Intn(8)))
		}
		right := n > 0
		for i := 1; i < n; i++ {
			right = right && l[i] > l[i-1]
		}
		keys, err := w.BC.ExtractKeyOutputKeys(pretty(w), uint32(r.Intn(100)), append([]uint32{}, l...))
		if !right && err == nil {
			t.Failf("output keys for the indexes %v are found: %v", l, keys)
		}
		t.Distinct(l)
		t.Count("index lists", 1)
	})

	c.Par("unlock times", c.N(2000, 40000), func(t *mon.T) {
		r := t.Rng
		w := world(t, sim.Options{})
		for k := 0; k < 20; k++ {
			now := sim.Now()
			h := gen.U32(r)
			u := gen.U64(r)
			switch r.Intn(4) {
			case 0:
				u = uint64(h) + uint64(r.Intn(5)) - 1
			case 1:
				u = now + sim.Target + uint64(r.Intn(7)) - 3
			case 2:
				u = 500000000 + uint64(r.Intn(5)) - 2
			}
			got := w.BC.IsTransactionSpendTimeUnlocked(u, h)
			after := sim.Now()
			want, alt := uint64(h)+1 >= u, uint64(h)+1 >= u
			if u >= 500000000 {
				want, alt = now+sim.Target >= u, after+sim.Target >= u
			}
			if got != want && got != alt {
				t.Failf("output locked until %d is unlocked at height %d, time %d: %v", u, h, now, got)
			}
			t.Count("unlock times", 1)
			t.Distinct(u, h)
		}
	})

	zone := []string{"tx input kind", "tx empty ring", "tx same outputs", "tx same images", "tx image in block", "tx zero output",
		"tx output key", "tx inputs overflow", "tx outputs overflow", "tx amounts", "tx fee", "tx extra fee", "tx mixin", "tx no outputs", "tx output amount"}
	for _, s := range zone {
		c.Require("only "+s, 1)
	}
	if haveRings {
		for _, s := range []string{"tx ring signature", "tx ring outputs", "tx spent image", "tx image domain"} {
			c.Require("only "+s, 1)
		}
	}
	c.Require("broken tx no inputs", 1)
	c.Require("blocks accepted", 100)
	c.Require("accepted: fusion", 1)
}
