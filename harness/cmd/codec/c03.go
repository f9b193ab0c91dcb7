package main

import (
	"math/rand"
	"reflect"

	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/ref"
)

// judge compares verdict and value with the reference decoder.
func judge(t *mon.T, name string, typ reflect.Type, b []byte) (accepted bool) {
	want, ok := ref.KVDecode(b, typ)
	p := reflect.New(typ)
	var err error
	if c, st := mon.Caught(func() { err = kv.Unmarshal(b, p.Interface()) }); c != nil {
		t.Failf("%s: panic on %x: %v\n%s", name, b, c, st)
		return
	}
	if ok != (err == nil) {
		t.Failf("%s: bytes %s are %s by the format, but Unmarshal says %v", name, hexAll(b), map[bool]string{true: "right", false: "wrong"}[ok], err)
		return
	}
	if !ok {
		t.Count("refused", 1)
		return
	}
	t.Count("accepted", 1)
	if !ref.Same(p.Elem(), want) {
		t.Failf("%s: bytes %s carry\n%s\nbut are decoded as\n%s", name, hexAll(b), short(want.Interface()), short(p.Elem().Interface()))
	}
	return true
}

func hexAll(b []byte) string {
	if len(b) > 700 {
		return mon.Hex(b)
	}
	return mon.Hex(b)
}

// mutant is a document that differs from the message in one or two places of its structure.
func mutant(r *rand.Rand, m msg.Msg) []byte {
	root := m.Node.Clone()
	for k := 1 + r.Intn(2); k > 0; k-- {
		type pn struct{ p, n *ref.Node }
		all := []pn{{nil, root}}
		root.Walk(func(p, n *ref.Node) { all = append(all, pn{p, n}) })
		x := all[r.Intn(len(all))]
		n := x.n
		switch r.Intn(11) {
		case 0: // other type, same bytes
			n.Type = byte(r.Intn(14))
			if r.Intn(4) == 0 {
				n.Type |= ref.KVArray
			}
		case 1: // name
			if len(n.Name) > 0 {
				b := []byte(n.Name)
				switch r.Intn(4) {
				case 0:
					b = b[:len(b)-1]
				case 1:
					b = append(b, 'x')
				case 2:
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				case 3:
					b = nil
				}
				n.Name = string(b)
			}
		case 2, 3: // length of the binary value
			if n.Type == ref.KVBinary {
				switch r.Intn(4) {
				case 0:
					n.Raw = append(append([]byte{}, n.Raw...), byte(r.Intn(256)))
				case 1:
					if len(n.Raw) > 0 {
						n.Raw = n.Raw[:r.Intn(len(n.Raw))]
					}
				case 2:
					n.Raw = gen.Bytes(r, r.Intn(100))
				case 3:
					n.Raw = nil
				}
			}
		case 4: // width of the size prefix
			n.Width = []int{1, 2, 4, 8}[r.Intn(4)]
			if n.Width == 1 && (len(n.Raw) > 63 || len(n.Items) > 63) || n.Width == 2 && len(n.Raw) > 16383 {
				n.Width = 8
			}
		case 5: // wrong count
			v := uint64(len(n.Raw) + len(n.Items) + len(n.Fields))
			switch r.Intn(4) {
			case 3: // the right count, when its high bits are lost
				s := []uint{6, 8, 14, 16, 24, 29, 31, 32, 32, 32, 40, 48, 56, 61}[r.Intn(14)]
				v += 1 << s
				n.Width = 8
				if s < 30 && r.Intn(2) == 0 {
					n.Width = 4
				}
			case 0:
				v++
			case 1:
				if v > 0 {
					v--
				}
			case 2:
				v = uint64(r.Intn(300))
			}
			n.Count = &v
			if n.Width == 1 && v > 63 {
				n.Width = 0
			}
		case 6: // field is missing
			if x.p != nil && len(x.p.Fields) > 0 {
				for i := range x.p.Fields {
					if x.p.Fields[i] == n {
						x.p.Fields = append(x.p.Fields[:i:i], x.p.Fields[i+1:]...)
						break
					}
				}
			}
		case 7: // field is repeated or moved
			if x.p != nil && len(x.p.Fields) > 0 {
				c := n.Clone()
				if len(c.Raw) > 0 && r.Intn(2) == 0 {
					c.Raw[0]++
				}
				i := r.Intn(len(x.p.Fields) + 1)
				x.p.Fields = append(x.p.Fields[:i:i], append([]*ref.Node{c}, x.p.Fields[i:]...)...)
			}
		case 8: // unknown field
			if n.Type == ref.KVObject {
				n.Fields = append(n.Fields, ref.U([]string{"unknown", "u", "", "local_tim"}[r.Intn(4)], ref.KVUint8, 1))
			}
		case 9: // simple value of a wrong size
			if len(n.Raw) > 0 && n.Type != ref.KVBinary {
				n.Raw = gen.Bytes(r, []int{1, 2, 4, 8}[r.Intn(4)])
			}
		case 10: // other value
			if len(n.Raw) > 0 {
				n.Raw[r.Intn(len(n.Raw))] ^= byte(1 + r.Intn(255))
			}
		}
	}
	return root.Doc()
}

func checkC03(c *mon.Ctx) {
	c.Rule("Every message is cut at every offset and every byte of it is altered; documents with changed types, names, lengths, counts, repeated, " +
		"missing and unknown fields are built from it. Verdict and value of the decoder are compared with a reference decoder. " +
		"A case is non trivial when its bytes were not seen before.")
	c.Assume("harness/ref/kv.go reads the portable storage format right; redundant size prefixes, repeated fields and bytes behind the document are allowed by it")

	c.Par("cuts and alterations", c.N(96, 6000), func(t *mon.T) {
		m := msg.Gen(t.Rng, t.I, false)
		typ := reflect.TypeOf(m.Value)
		b := m.Node.Doc()
		t.Distinct(b)
		t.SetDesc("%s %s", m.Name, mon.Hex(b))
		step := 1
		if len(b) > 2500 {
			step = len(b) / 2500
		}
		for i := 0; i < len(b); i += step {
			if judge(t, m.Name+" cut", typ, b[:i:i]) {
				t.Failf("%s cut to %d bytes is accepted", m.Name, i)
			}
			t.Count("cuts", 1)
		}
		for i := t.Rng.Intn(step); i < len(b); i += step {
			x := append([]byte{}, b...)
			x[i] ^= byte(1 + t.Rng.Intn(255))
			judge(t, m.Name+" altered", typ, x)
			x[i] = b[i] ^ 1<<uint(t.Rng.Intn(8))
			judge(t, m.Name+" altered", typ, x)
			t.Count("alterations", 2)
			if t.Failed() {
				return
			}
		}
		// all the values of the header bytes
		for i := 0; i < len(ref.KVHeader) && t.I < msg.Kinds; i++ {
			for v := 0; v < 256; v++ {
				x := append([]byte{}, b...)
				x[i] = byte(v)
				judge(t, m.Name+" header", typ, x)
			}
		}
	})
	c.Par("mutants", c.N(30000, 1200000), func(t *mon.T) {
		m := msg.Gen(t.Rng, t.I, false)
		b := mutant(t.Rng, m)
		t.Distinct(b)
		t.SetDesc("%s %s", m.Name, mon.Hex(b))
		judge(t, m.Name, reflect.TypeOf(m.Value), b)
		if m.ID != 0 && haveParse {
			want, ok := ref.KVDecode(b, reflect.TypeOf(m.Value))
			v, err := parseAny(m.Kind, m.ID, b)
			if ok != (err == nil) {
				t.Failf("message %d %x: right %v, parsed %v", m.ID, b, ok, err)
			} else if ok && (reflect.TypeOf(v) != reflect.TypeOf(m.Value) || !ref.Same(reflect.ValueOf(v), want)) {
				t.Failf("message %d %x: parsed as %T %s", m.ID, b, v, short(v))
			}
			t.Count("parsed by id", 1)
		}
	})
	c.Par("documents as other messages", c.N(4000, 100000), func(t *mon.T) {
		m, o := msg.Gen(t.Rng, t.Rng.Intn(msg.Kinds), false), msg.Gen(t.Rng, t.Rng.Intn(msg.Kinds), false)
		b := m.Node.Doc()
		t.Distinct(o.Name, b)
		judge(t, m.Name+" as "+o.Name, reflect.TypeOf(o.Value), b)
	})
	if haveParse {
		known := map[uint32]byte{}
		for k := 0; k < msg.Kinds; k++ {
			m := msg.Gen(rand.New(rand.NewSource(1)), k, false)
			if m.ID != 0 {
				known[m.ID] = m.Kind
			}
		}
		c.Par("unknown ids", c.N(4000, 20000), func(t *mon.T) {
			id := uint32(t.I)
			if t.I >= 3000 {
				id = gen.U32(t.Rng)
			}
			for _, kind := range []byte{'n', 'c'} {
				if known[id] == kind {
					continue
				}
				m := msg.Gen(t.Rng, t.Rng.Intn(msg.Kinds), false)
				if v, err := parseAny(kind, id, m.Node.Doc()); err == nil {
					t.Failf("message with unknown id %d is parsed as %T", id, v)
				}
				t.Count("unknown ids refused", 1)
			}
		})
	}
	c.Par("noise", c.N(5000, 200000), func(t *mon.T) {
		m := msg.Gen(t.Rng, t.I, false)
		b := mangle(t.Rng, m.Node.Doc())
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
		t.Distinct(b)
		judge(t, m.Name+" noise", reflect.TypeOf(m.Value), b)
	})
	c.Require("cuts", 5000)
	c.Require("accepted", 2000)
	c.Require("refused", 10000)
}
