package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/ref"
)

func roundTrip(t *mon.T, m msg.Msg) {
	want := m.Node.Doc()
	t.Distinct(m.Name, want)
	t.SetDesc("%s %s", m.Name, mon.Hex(want))
	got, err := kv.Marshal(m.Value)
	if err != nil {
		t.Failf("%s: Marshal: %v", m.Name, err)
		return
	}
	if !bytes.Equal(got, want) {
		t.Failf("%s %+v:\n encoded %s\n want    %s\n%s", m.Name, short(m.Value), mon.Hex(got), mon.Hex(want), diffAt(got, want))
		return
	}
	p := m.New()
	if err := kv.Unmarshal(want, p.Interface()); err != nil {
		t.Failf("%s: Unmarshal of %s: %v", m.Name, mon.Hex(want), err)
		return
	}
	if !ref.Same(p.Elem(), reflect.ValueOf(m.Value)) {
		t.Failf("%s: decoded value differs:\n%s\n%s", m.Name, short(p.Elem().Interface()), short(m.Value))
		return
	}
	t.Count("round trips", 1)
	t.Count(m.Name, 1)
	t.Count("encoded bytes compared", int64(len(want)))
}

func short(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func diffAt(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at %d of %d and %d bytes", i, len(a), len(b))
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

func checkC01(c *mon.Ctx) {
	c.Rule("Messages of all kinds and a structure with a field of every kind are generated together with the document they must become; " +
		"lengths are drawn around the boundaries of the size prefix. A case is non trivial when its document was not seen before.")
	c.Assume("harness/ref/kv.go writes the portable storage format right")

	for k := 0; k < msg.Kinds; k++ {
		kind := k
		c.Par(fmt.Sprintf("kind %d", kind), c.N(400, 12000), func(t *mon.T) { roundTrip(t, msg.Gen(t.Rng, kind, false)) })
		c.Par(fmt.Sprintf("big kind %d", kind), c.N(60, 1500), func(t *mon.T) { roundTrip(t, msg.Gen(t.Rng, kind, true)) })
	}
	// every number of items and every length around the prefix boundaries, one by one
	edges := []int{0, 1, 2, 62, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 16382, 16383, 16384, 16385, 65535, 65536, 1<<20 - 1, 1 << 20}
	c.Par("lengths", len(edges)*4, func(t *mon.T) {
		n := edges[t.I/4]
		var w msg.Wide
		for _, m := range []msg.Msg{msg.Gen(t.Rng, 14, false)} {
			w = m.Value.(msg.Wide)
			root := m.Node
			set := func(name string, node *ref.Node) {
				for i, f := range root.Fields {
					if f.Name == name {
						root.Fields[i] = node
					}
				}
			}
			b := gen.Bytes(t.Rng, n)
			switch t.I % 4 {
			case 0:
				w.Bin = b
				set("bin", ref.Bin("bin", b))
			case 1:
				w.Str = string(b)
				set("str", ref.Bin("str", b))
			case 2:
				w.Flags = nil
				an := ref.Arr("flags", ref.KVBool)
				for i := 0; i < n; i++ {
					w.Flags = append(w.Flags, b[i]&1 == 1)
					an.Items = append(an.Items, ref.B("", b[i]&1 == 1))
				}
				set("flags", an)
			case 3:
				if n > 70000 {
					return
				}
				w.Bins = nil
				an := ref.Arr("bins", ref.KVBinary)
				for i := 0; i < n; i++ {
					w.Bins = append(w.Bins, b[i:i+1])
					an.Items = append(an.Items, ref.Bin("", b[i:i+1]))
				}
				set("bins", an)
			}
			m.Value = w
			roundTrip(t, m)
			t.Count("lengths at the boundaries", 1)
		}
	})
	if !c.Quick() {
		c.SeqL("gigabyte", 2, 300e9, func(t *mon.T) {
			n := 1<<30 - 1 + t.I
			b := make([]byte, n)
			b[0], b[n-1] = 1, 2
			m := msg.Gen(t.Rng, 5, false)
			_ = m
			type big struct {
				B []byte `binary:"b"`
			}
			got, err := kv.Marshal(big{b})
			if err != nil {
				t.Failf("Marshal of %d bytes: %v", n, err)
				return
			}
			head := append(append([]byte{}, ref.KVHeader...), 4, 1, 'b', ref.KVBinary)
			head = append(head, ref.KVSize(uint64(n), 0)...)
			if !bytes.Equal(got[:len(head)], head) || len(got) != len(head)+n {
				t.Failf("prefix of %d bytes: %x, want %x", n, got[:len(head)], head)
			}
			var o big
			if err := kv.Unmarshal(got, &o); err != nil || !bytes.Equal(o.B, b) {
				t.Failf("%d bytes do not come back: %v", n, err)
			}
			t.Count("gigabyte values", 1)
		})
	}
	c.Par("size prefix", c.N(20000, 2000000), func(t *mon.T) {
		v := gen.U64(t.Rng)
		if t.Rng.Intn(3) == 0 {
			v = []uint64{1 << 6, 1 << 14, 1 << 30, 1 << 62}[t.Rng.Intn(4)] - 2 + uint64(t.Rng.Intn(4))
		}
		t.SetDesc("%d", v)
		hookVarint(t, v)
	})
	// values shared by goroutines
	c.Seq("shared", c.N(20, 400), func(t *mon.T) {
		m := msg.Gen(t.Rng, t.I, true)
		want := m.Node.Doc()
		var wg sync.WaitGroup
		errs := make(chan string, 64)
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					got, err := kv.Marshal(m.Value)
					if err != nil || !bytes.Equal(got, want) {
						errs <- fmt.Sprintf("concurrent Marshal of %s: %v %s", m.Name, err, diffAt(got, want))
						return
					}
					p := m.New()
					if err := kv.Unmarshal(want, p.Interface()); err != nil || !ref.Same(p.Elem(), reflect.ValueOf(m.Value)) {
						errs <- fmt.Sprintf("concurrent Unmarshal of %s: %v", m.Name, err)
						return
					}
				}
			}()
		}
		wg.Wait()
		close(errs)
		for e := range errs {
			t.Failf("%s", e)
			break
		}
		t.Count("concurrent codec calls", 320)
	})
	c.Require("round trips", 1000)
	c.Require("concurrent codec calls", 1000)
}
