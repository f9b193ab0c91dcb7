//go:build hook_binary__varint

package main

import (
	"bytes"

	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"verifharness/mon"
	"verifharness/ref"
)

func hookVarint(t *mon.T, v uint64) {
	b, err := kv.VerifWriteVarInt(v)
	if v >= 1<<62 {
		if err == nil {
			t.Failf("size %d does not fit but is written as %x", v, b)
		}
		t.Count("sizes refused", 1)
		return
	}
	if w := ref.KVSize(v, 0); err != nil || !bytes.Equal(b, w) {
		t.Failf("size %d: got %x %v want %x", v, b, err, w)
		return
	}
	for _, w := range []int{1, 2, 4, 8} {
		if w < 8 && v>>(uint(w)*8-2) != 0 {
			continue
		}
		if g, err := kv.VerifReadVarInt(ref.KVSize(v, w)); err != nil || g != v {
			t.Failf("size %d in %d bytes is read as %d, %v", v, w, g, err)
		}
		if g, err := kv.VerifReadVarInt(ref.KVSize(v, w)[:w-1]); err == nil {
			t.Failf("cut size %d in %d bytes is read as %d", v, w, g)
		}
	}
	t.Distinct(v)
	t.Count("sizes compared", 1)
}
