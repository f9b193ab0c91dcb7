package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/crypto/base58"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/ref"
)

// hostile is a count or a length that nothing backs.
func hostile(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return []uint64{1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<62 - 1, 1 << 62, 1<<32 - 1, 1 << 32, 1<<31 - 1, 1 << 31, 2000000000, 2000000001, 100000000, 100000001}[r.Intn(13)]
	case 1:
		return uint64(r.Intn(300))
	case 2:
		return uint64(r.Int63n(1 << 34))
	default:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	}
}

// mangle damages bytes in a way that keeps most of the structure.
func mangle(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1, 2:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
		case 3:
			if len(b) > 0 {
				b[r.Intn(len(b))] = []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}[r.Intn(8)]
			}
		case 4:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append(cn.Uvarint(hostile(r)), b[i:]...)...)
		case 5:
			i := r.Intn(len(b) + 1)
			v := cn.Uvarint(hostile(r))
			j := i + len(v)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], append(v, b[j:]...)...)
		case 6:
			i := r.Intn(len(b) + 1)
			j := i + r.Intn(len(b)-i+1)
			b = append(b[:i:i], b[j:]...)
		case 7:
			i := r.Intn(len(b) + 1)
			j := i + r.Intn(len(b)-i+1)
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return b
}

// hostileDoc is a document with sizes that nothing backs.
func hostileDoc(r *rand.Rand, m msg.Msg) []byte {
	root := m.Node.Clone()
	nodes := []*ref.Node{root}
	root.Walk(func(_, n *ref.Node) { nodes = append(nodes, n) })
	for k := 1 + r.Intn(2); k > 0; k-- {
		n := nodes[r.Intn(len(nodes))]
		switch r.Intn(4) {
		case 0:
			n.Type = byte(r.Intn(256))
		default:
			v := hostile(r) & (1<<62 - 1)
			n.Count, n.Width = &v, 8
			if r.Intn(4) == 0 {
				n.Width = []int{1, 2, 4, 8}[r.Intn(4)]
			}
		}
	}
	b := root.Doc()
	if r.Intn(3) == 0 {
		b = mangle(r, b)
	}
	return b
}

// bomb is a document that is one huge list of the smallest items.
func bomb(r *rand.Rand, n int) (string, interface{}, []byte) {
	fill := func(field string, typ byte, item []byte) []byte {
		b := append(append([]byte{}, ref.KVHeader...), ref.KVSize(1, 0)...)
		b = append(b, byte(len(field)))
		b = append(b, field...)
		b = append(b, typ|ref.KVArray)
		b = append(b, ref.KVSize(uint64(n), 0)...)
		return append(b, bytes.Repeat(item, n)...)
	}
	switch r.Intn(4) {
	case 0:
		return "empty raw blocks", &p2p.NotificationResponseGetObjects{}, fill("blocks", ref.KVObject, []byte{0})
	case 1:
		return "empty structures", &msg.Wide{}, fill("list", ref.KVObject, []byte{0})
	case 2:
		return "flags", &msg.Wide{}, fill("flags", ref.KVBool, []byte{0})
	default:
		return "empty strings", &msg.Wide{}, fill("strs", ref.KVBinary, []byte{0})
	}
}

const (
	freeAlloc    = 4 << 20
	allocPerByte = 16 << 10
)

// guarded runs one decode call and watches panics, memory and time.
func guarded(t *mon.T, what string, in []byte, f func() bool) {
	t.SetDesc("%s of %s", what, mon.Hex(in))
	t.Distinct(what, in)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := time.Now()
	accepted := false
	p, stack := mon.Caught(func() { accepted = f() })
	took := time.Since(start)
	runtime.ReadMemStats(&after)
	if p != nil {
		t.Failf("%s panics on %x: %v\n%s", what, in, p, stack)
		return
	}
	got := after.TotalAlloc - before.TotalAlloc
	if limit := uint64(freeAlloc) + uint64(len(in))*allocPerByte; got > limit {
		t.Failf("%s allocates %d bytes for %d bytes of input: %s", what, got, len(in), mon.Hex(in))
	}
	if limit := 20*time.Second + time.Duration(len(in))*100*time.Microsecond; took > limit {
		t.Failf("%s takes %v for %d bytes of input: %s", what, took, len(in), mon.Hex(in))
	}
	t.Count("hostile inputs", 1)
	if accepted {
		t.Count(what+": accepted", 1)
	} else {
		t.Count(what+": refused", 1)
	}
}

func useBlock(b *cryptonote.Block) {
	b.Hash()
	b.HashingBytes()
	b.Serialize()
	b.Index()
	useTx(&b.BaseTransaction)
}

func useTx(x *cryptonote.Transaction) {
	x.Hash()
	x.TransactionPrefix.Hash()
	x.Serialize()
	x.Size()
	_, _ = x.ParseExtra()
}

func checkC02(c *mon.Ctx) {
	c.Rule("Valid encodings are damaged (truncated, bits and bytes changed, parts removed and repeated) and given counts, sizes and types " +
		"that nothing backs, plus random bytes; every decoder runs with panics caught and its allocations measured. " +
		"A case is non trivial when the decoder did not get the same bytes before.")
	c.Assume(fmt.Sprintf("proportional means at most %d MiB plus %d KiB for every byte of the input", freeAlloc>>20, allocPerByte>>10))

	c.Seq("messages", c.N(6000, 250000), func(t *mon.T) {
		m := msg.Gen(t.Rng, t.I, t.Rng.Intn(8) == 0)
		var b []byte
		switch t.Rng.Intn(5) {
		case 0:
			b = mangle(t.Rng, m.Node.Doc())
		case 1:
			b = append(append([]byte{}, ref.KVHeader...), gen.Bytes(t.Rng, t.Rng.Intn(100))...)
			if t.Rng.Intn(4) == 0 {
				b = gen.Bytes(t.Rng, t.Rng.Intn(100))
			}
		default:
			b = hostileDoc(t.Rng, m)
		}
		guarded(t, m.Name, b, func() bool { return kv.Unmarshal(b, m.New().Interface()) == nil })
		if haveParse && m.ID != 0 {
			guarded(t, "parse "+m.Name, b, func() bool { _, err := parseAny(m.Kind, m.ID, b); return err == nil })
		}
	})
	c.Seq("lists of nothing", c.N(12, 60), func(t *mon.T) {
		n := []int{1000, 60000, 300000}[t.I%3]
		name, v, b := bomb(t.Rng, n)
		guarded(t, name, b, func() bool { return kv.Unmarshal(b, v) == nil })
	})
	c.Seq("blocks", c.N(8000, 300000), func(t *mon.T) {
		v := byte(1 + t.I%5)
		b := cn.Block(cn.GenBlock(t.Rng, v))
		switch t.Rng.Intn(8) {
		case 0:
			b = append([]byte{v, 0}, gen.Bytes(t.Rng, t.Rng.Intn(200))...)
		case 1: // something hostile at the end of what is there
			b = append(b[:t.Rng.Intn(len(b)+1)], append(cn.Uvarint(hostile(t.Rng)), gen.Bytes(t.Rng, t.Rng.Intn(80))...)...)
		default:
			b = mangle(t.Rng, b)
		}
		guarded(t, fmt.Sprintf("block version %d", v), b, func() bool {
			var x cryptonote.Block
			if x.Deserialize(bytes.NewReader(b)) != nil {
				return false
			}
			useBlock(&x)
			return true
		})
		if t.Rng.Intn(3) == 0 {
			guarded(t, "raw block", b, func() bool {
				rb := p2p.RawBlock{Block: b}
				x, err := rb.ToBlock()
				if err == nil {
					useBlock(x)
				}
				return err == nil
			})
		}
	})
	c.Seq("blocks cut at every byte", c.N(30, 600), func(t *mon.T) {
		v := byte(1 + t.I%5)
		b := cn.Block(cn.GenBlock(t.Rng, v))
		if len(b) > 1500 {
			b = b[:1500]
		}
		for i := 0; i < len(b); i++ {
			var x cryptonote.Block
			if p, st := mon.Caught(func() { _ = x.Deserialize(bytes.NewReader(b[:i])) }); p != nil {
				t.Failf("block panics on %x: %v\n%s", b[:i], p, st)
				return
			}
			t.Count("cut blocks", 1)
		}
	})
	c.Seq("transactions", c.N(8000, 300000), func(t *mon.T) {
		b := cn.Tx(cn.GenTx(t.Rng, t.Rng.Intn(4) == 0))
		switch t.Rng.Intn(8) {
		case 0:
			b = gen.Bytes(t.Rng, t.Rng.Intn(200))
		case 1:
			b = append(b[:t.Rng.Intn(len(b)+1)], append(cn.Uvarint(hostile(t.Rng)), gen.Bytes(t.Rng, t.Rng.Intn(80))...)...)
		default:
			b = mangle(t.Rng, b)
		}
		guarded(t, "transaction", b, func() bool {
			var x cryptonote.Transaction
			if x.Deserialize(bytes.NewReader(b)) != nil {
				return false
			}
			useTx(&x)
			return true
		})
	})
	// one hostile count in each place of the transaction
	c.Seq("counts", c.N(4000, 60000), func(t *mon.T) {
		h := cn.Uvarint(hostile(t.Rng))
		b := append([]byte{1}, cn.Uvarint(gen.U64(t.Rng))...)
		place := t.I % 6
		tail := gen.Bytes(t.Rng, t.Rng.Intn(60))
		key := func(ring []byte) []byte {
			x := append([]byte{2}, cn.Uvarint(gen.U64(t.Rng))...)
			x = append(x, ring...)
			return x
		}
		switch place {
		case 0: // inputs
			b = append(append(b, h...), tail...)
		case 1: // ring
			b = append(append(append(b, 1), key(h)...), tail...)
		case 2: // outputs
			b = append(append(append(b, 1, 0xff, 5), h...), tail...)
		case 3: // extra
			b = append(append(append(b, 1, 0xff, 5, 0), h...), tail...)
		case 4: // big ring without signatures behind
			n := t.Rng.Intn(2000)
			b = append(append(b, 1), key(append(cn.Uvarint(uint64(n)), make([]byte, n)...))...)
			b = append(append(b, make([]byte, 32)...), 0, 0)
			b = append(b, tail...)
		case 5: // inputs of repeated kind
			n := t.Rng.Intn(3000)
			b = append(b, cn.Uvarint(uint64(n))...)
			b = append(b, bytes.Repeat([]byte{0xff, 0}, n)...)
			b = append(append(b, h...), tail...)
		}
		guarded(t, fmt.Sprintf("transaction count %d", place), b, func() bool {
			var x cryptonote.Transaction
			if x.Deserialize(bytes.NewReader(b)) != nil {
				return false
			}
			useTx(&x)
			return true
		})
		// number of hashes in a block
		blk := append([]byte{4, 0, 0}, make([]byte, 36)...)
		blk = append(blk, 1, 0, 1, 0xff, 1, 0, 0)
		blk = append(append(blk, h...), tail...)
		guarded(t, "block hashes count", blk, func() bool {
			var x cryptonote.Block
			if x.Deserialize(bytes.NewReader(blk)) != nil {
				return false
			}
			useBlock(&x)
			return true
		})
	})
	c.Seq("extra", c.N(8000, 300000), func(t *mon.T) {
		b := cn.GenExtra(t.Rng, t.Rng.Intn(4)-1)
		switch t.Rng.Intn(4) {
		case 0:
			b = gen.Bytes(t.Rng, t.Rng.Intn(60))
			for i := range b {
				b[i] &= 3
			}
		case 1:
			b = append(append([]byte{byte(t.Rng.Intn(5))}, cn.Uvarint(hostile(t.Rng))...), gen.Bytes(t.Rng, t.Rng.Intn(60))...)
		default:
			b = mangle(t.Rng, b)
		}
		guarded(t, "extra", b, func() bool { _, err := cryptonote.TxExtraFromBytes(b); return err == nil })
	})
	c.Seq("text", c.N(8000, 300000), func(t *mon.T) {
		n := t.Rng.Intn(130)
		if t.I%500 == 0 {
			n = 20000
		}
		b := make([]byte, n)
		for i := range b {
			switch t.Rng.Intn(40) {
			case 0:
				b[i] = byte(t.Rng.Intn(256))
			case 1:
				b[i] = 'z'
			default:
				b[i] = b58[t.Rng.Intn(58)]
			}
		}
		s := string(b)
		if t.Rng.Intn(10) == 0 {
			s = string([]rune{rune(t.Rng.Intn(0x10ffff)), rune(t.Rng.Intn(0x3000)), 0x130, 'K'}) + s
		}
		guarded(t, "base58", []byte(s), func() bool { _, err := base58.Decode(s); return err == nil })
		guarded(t, "address", []byte(s), func() bool { var a cryptonote.Address; return a.FromString(s) == nil })
	})
	c.Seq("short addresses", c.N(2000, 40000), func(t *mon.T) {
		// right checksum over too little data
		d := gen.Bytes(t.Rng, t.Rng.Intn(12))
		if t.Rng.Intn(2) == 0 {
			d = bytes.Repeat([]byte{0xff}, t.Rng.Intn(12))
		}
		h := ref.Keccak(d)
		s := refEncode(append(d, h[:4]...))
		guarded(t, "address", []byte(s), func() bool { var a cryptonote.Address; return a.FromString(s) == nil })
	})
	c.Seq("keys", c.N(3000, 60000), func(t *mon.T) {
		b := gen.Bytes(t.Rng, t.Rng.Intn(70))
		guarded(t, "signature", b, func() bool { var s crypto.Signature; return s.Deserialize(bytes.NewReader(b)) == nil })
		guarded(t, "hash", b, func() bool { var h crypto.Hash; return h.Read(bytes.NewReader(b)) == nil })
	})
	c.Seq("packets", c.N(4000, 100000), func(t *mon.T) {
		m := msg.Gen(t.Rng, []int{1, 3, 5, 14}[t.I%4], false)
		body := m.Node.Doc()
		if t.Rng.Intn(2) == 0 {
			body = hostileDoc(t.Rng, m)
		}
		n := uint64(len(body))
		switch t.Rng.Intn(3) {
		case 0:
			n = hostile(t.Rng)
		case 1:
			n = []uint64{100000000, 99999999, 100000001, n + 1, n - 1}[t.Rng.Intn(5)]
		}
		var b []byte
		b = binary.LittleEndian.AppendUint64(b, p2p.LevinSignature)
		b = binary.LittleEndian.AppendUint64(b, n)
		b = append(b, byte(t.Rng.Intn(2)))
		b = binary.LittleEndian.AppendUint32(b, 1001)
		b = append(b, 0, 0, 0, 0)
		b = binary.LittleEndian.AppendUint32(b, 2)
		b = binary.LittleEndian.AppendUint32(b, 1)
		b = append(b, body...)
		if t.Rng.Intn(3) == 0 {
			b = mangle(t.Rng, b)
		}
		res := reflect.New(reflect.TypeOf(m.Value))
		guarded(t, "packet", b, func() bool {
			p := p2p.LevinProtocol{Conn: &feed{b: b, step: t.Rng.Intn(50)}}
			return p.Invoke(1001, p2p.PingRequest{}, res.Interface()) == nil
		})
	})
	c.Require("hostile inputs", 10000)
	c.Require("transaction: refused", 500)
	c.Require("transaction: accepted", 50)
	c.Require("packet: accepted", 50)
}
