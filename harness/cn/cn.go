// Package cn generates blocks and transactions and has the reference of their binary format and identifiers.
package cn

import (
	"encoding/binary"
	"math/rand"
	"reflect"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/gen"
	"verifharness/ref"
)

// Uvarint is LEB128.
func Uvarint(v uint64) (b []byte) {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// Prefix is a reference serialization of the transaction prefix.
func Prefix(t *cryptonote.TransactionPrefix) (b []byte) {
	b = append(b, Uvarint(uint64(t.Version))...)
	b = append(b, Uvarint(t.UnlockHeight)...)
	b = append(b, Uvarint(uint64(len(t.Inputs)))...)
	for _, i := range t.Inputs {
		switch in := i.(type) {
		case cryptonote.InputCoinbase:
			b = append(b, 0xff)
			b = append(b, Uvarint(uint64(in.BlockIndex))...)
		case cryptonote.InputKey:
			b = append(b, 2)
			b = append(b, Uvarint(in.Amount)...)
			b = append(b, Uvarint(uint64(len(in.OutputIndexes)))...)
			for _, o := range in.OutputIndexes {
				b = append(b, Uvarint(uint64(o))...)
			}
			b = append(b, in.KeyImage[:]...)
		default:
			panic("input kind")
		}
	}
	b = append(b, Uvarint(uint64(len(t.Outputs)))...)
	for _, o := range t.Outputs {
		b = append(b, Uvarint(o.Amount)...)
		k := o.Target.(cryptonote.OutputKey)
		b = append(b, 2)
		b = append(b, k.PublicKey[:]...)
	}
	b = append(b, Uvarint(uint64(len(t.Extra)))...)
	return append(b, t.Extra...)
}

// Tx is a reference serialization of the transaction.
func Tx(t *cryptonote.Transaction) []byte {
	b := Prefix(&t.TransactionPrefix)
	for i, in := range t.Inputs {
		if k, ok := in.(cryptonote.InputKey); ok && len(k.OutputIndexes) > 0 {
			for _, s := range t.TransactionSignatures[i] {
				b = append(b, s.C[:]...)
				b = append(b, s.R[:]...)
			}
		}
	}
	return b
}

func le32(v uint32) []byte {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], v)
	return b[:]
}

// Header is a reference serialization of the block header.
func Header(b *cryptonote.Block) (r []byte) {
	r = append(r, Uvarint(uint64(b.MajorVersion))...)
	r = append(r, Uvarint(uint64(b.MinorVersion))...)
	if b.MajorVersion == 2 || b.MajorVersion == 3 {
		return append(r, b.PreviousBlockHash[:]...)
	}
	r = append(r, Uvarint(b.Timestamp)...)
	r = append(r, b.PreviousBlockHash[:]...)
	return append(r, le32(b.Nonce)...)
}

// Parent is a reference serialization of the merge mining parent.
func Parent(p *cryptonote.ParentBlock, hashing bool) (r []byte) {
	r = append(r, Uvarint(uint64(p.MajorVersion))...)
	r = append(r, Uvarint(uint64(p.MinorVersion))...)
	r = append(r, Uvarint(p.Timestamp)...)
	r = append(r, p.Prev[:]...)
	r = append(r, le32(p.Nonce)...)
	if hashing {
		h := ref.Keccak(Prefix(p.BaseTransaction.TransactionPrefix))
		for i := len(p.BaseTransactionBranch) - 1; i >= 0; i-- {
			h = ref.Keccak(append(append([]byte{}, h[:]...), p.BaseTransactionBranch[i][:]...))
		}
		r = append(r, h[:]...)
	}
	r = append(r, Uvarint(uint64(p.TransactionsCount))...)
	for _, h := range p.BaseTransactionBranch {
		r = append(r, h[:]...)
	}
	r = append(r, Prefix(p.BaseTransaction.TransactionPrefix)...)
	for _, h := range p.BlockchainBranch {
		r = append(r, h[:]...)
	}
	return
}

// Block is a reference serialization of the block.
func Block(b *cryptonote.Block) []byte {
	r := Header(b)
	if b.MajorVersion >= 5 {
		r = append(r, b.Signature.C[:]...)
		r = append(r, b.Signature.R[:]...)
	}
	if b.MajorVersion == 2 || b.MajorVersion == 3 {
		r = append(r, Parent(b.Parent, false)...)
	}
	r = append(r, Tx(&b.BaseTransaction)...)
	r = append(r, Uvarint(uint64(len(b.TransactionsHashes)))...)
	for _, h := range b.TransactionsHashes {
		r = append(r, h[:]...)
	}
	return r
}

// Root is the Merkle root, written by the definition of the tree: leaves of the incomplete last level are paired
// at the end of the list, everything above is a complete binary tree.
func Root(hs []crypto.Hash) crypto.Hash {
	n := len(hs)
	if n == 1 {
		return hs[0]
	}
	level := 1
	for level*2 < n {
		level *= 2
	}
	// level is how many nodes are above the last level
	var up []crypto.Hash
	alone := level*2 - n
	up = append(up, hs[:alone]...)
	for i := alone; i < n; i += 2 {
		up = append(up, pair(hs[i], hs[i+1]))
	}
	return complete(up)
}

func pair(a, b crypto.Hash) crypto.Hash {
	return crypto.Hash(ref.Keccak(append(append([]byte{}, a[:]...), b[:]...)))
}

func complete(hs []crypto.Hash) crypto.Hash {
	if len(hs) == 1 {
		return hs[0]
	}
	h := len(hs) / 2
	return pair(complete(hs[:h]), complete(hs[h:]))
}

// Branch is the path from the first leaf to the root, starting at the root.
func Branch(hs []crypto.Hash) []crypto.Hash {
	n := len(hs)
	if n == 1 {
		return nil
	}
	level := 1
	for level*2 < n {
		level *= 2
	}
	alone := level*2 - n
	var up, res []crypto.Hash
	up = append(up, hs[:alone]...)
	for i := alone; i < n; i += 2 {
		up = append(up, pair(hs[i], hs[i+1]))
	}
	for l := len(up); l > 1; l /= 2 {
		res = append(res, complete(up[l/2:l]))
	}
	if alone == 0 {
		res = append(res, hs[1])
	}
	return res
}

// HashingBytes is what the signature of the block and its id commit to.
func HashingBytes(b *cryptonote.Block) []byte {
	r := Header(b)
	hs := append([]crypto.Hash{crypto.Hash(ref.Keccak(Tx(&b.BaseTransaction)))}, b.TransactionsHashes...)
	root := Root(hs)
	r = append(r, root[:]...)
	return append(r, Uvarint(uint64(len(hs)))...)
}

// ID is the reference block id.
func ID(b *cryptonote.Block) crypto.Hash {
	r := HashingBytes(b)
	if b.MajorVersion == 2 || b.MajorVersion == 3 {
		r = append(r, Parent(b.Parent, true)...)
	}
	return crypto.Hash(ref.Keccak(append(Uvarint(uint64(len(r))), r...)))
}

// Reference parser.

type rd struct{ b []byte }

func (r *rd) take(n uint64) ([]byte, bool) {
	if uint64(len(r.b)) < n {
		return nil, false
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x, true
}

func (r *rd) uv(max uint64) (uint64, bool) {
	var v uint64
	for i := uint(0); ; i++ {
		x, ok := r.take(1)
		if !ok || i > 9 || (i == 9 && x[0] > 1) {
			return 0, false
		}
		v |= uint64(x[0]&0x7f) << (7 * i)
		if x[0] < 0x80 {
			if x[0] == 0 && i > 0 || v > max {
				return 0, false
			}
			return v, true
		}
	}
}

func (r *rd) h32() (h [32]byte, ok bool) {
	b, ok := r.take(32)
	copy(h[:], b)
	return
}

func (r *rd) prefix() (t cryptonote.TransactionPrefix, ok bool) {
	v, ok := r.uv(255)
	if !ok {
		return
	}
	t.Version = byte(v)
	if t.UnlockHeight, ok = r.uv(^uint64(0)); !ok {
		return
	}
	n, ok := r.uv(^uint64(0))
	if !ok {
		return t, false
	}
	for ; n > 0; n-- {
		tag, ok := r.take(1)
		if !ok {
			return t, false
		}
		switch tag[0] {
		case 0xff:
			i, ok := r.uv(1<<32 - 1)
			if !ok {
				return t, false
			}
			t.Inputs = append(t.Inputs, cryptonote.InputCoinbase{BlockIndex: uint32(i)})
		case 2:
			var k cryptonote.InputKey
			if k.Amount, ok = r.uv(^uint64(0)); !ok {
				return t, false
			}
			m, ok := r.uv(^uint64(0))
			if !ok {
				return t, false
			}
			for ; m > 0; m-- {
				o, ok := r.uv(1<<32 - 1)
				if !ok {
					return t, false
				}
				k.OutputIndexes = append(k.OutputIndexes, uint32(o))
			}
			img, ok := r.h32()
			if !ok {
				return t, false
			}
			k.KeyImage = img
			t.Inputs = append(t.Inputs, k)
		default:
			return t, false
		}
	}
	if n, ok = r.uv(^uint64(0)); !ok {
		return
	}
	for ; n > 0; n-- {
		a, ok := r.uv(^uint64(0))
		if !ok {
			return t, false
		}
		tag, ok := r.uv(255)
		if !ok || tag != 2 {
			return t, false
		}
		k, ok := r.h32()
		if !ok {
			return t, false
		}
		t.Outputs = append(t.Outputs, cryptonote.TransactionOutput{Amount: a, Target: cryptonote.OutputKey{PublicKey: k}})
	}
	if n, ok = r.uv(^uint64(0)); !ok {
		return
	}
	e, ok := r.take(n)
	t.Extra = append([]byte{}, e...)
	return t, ok
}

func (r *rd) sig() (s crypto.Signature, ok bool) {
	b, ok := r.take(64)
	if ok {
		copy(s.C[:], b)
		copy(s.R[:], b[32:])
	}
	return
}

func (r *rd) tx() (t cryptonote.Transaction, ok bool) {
	if t.TransactionPrefix, ok = r.prefix(); !ok {
		return
	}
	if len(t.Inputs) == 0 {
		return t, true
	}
	if _, cb := t.Inputs[0].(cryptonote.InputCoinbase); cb && len(t.Inputs) == 1 {
		return t, true
	}
	for _, in := range t.Inputs {
		var ss []crypto.Signature
		if k, key := in.(cryptonote.InputKey); key {
			for range k.OutputIndexes {
				s, ok := r.sig()
				if !ok {
					return t, false
				}
				ss = append(ss, s)
			}
		}
		t.TransactionSignatures = append(t.TransactionSignatures, ss)
	}
	return t, true
}

// Extra is the reference content of the extra field.
type Extra struct {
	PublicKey [32]byte
	Nonce     []byte
	Tag       *cryptonote.TransactionExtraMergeMiningTag
	Unsure    bool // padding of the boundary length or empty nonce after another one, the format is ambiguous here
}

// ParseExtra is a reference parser of the extra field.
func ParseExtra(b []byte) (e Extra, ok bool) {
	r := &rd{b}
	loose := func() (uint64, bool) { // sizes may be written with redundant bytes
		var v uint64
		for i := uint(0); ; i++ {
			x, ok := r.take(1)
			if !ok || i > 9 || (i == 9 && x[0] > 1) {
				return 0, false
			}
			v |= uint64(x[0]&0x7f) << (7 * i)
			if x[0] < 0x80 {
				return v, true
			}
		}
	}
	for len(r.b) > 0 {
		tag := r.b[0]
		r.b = r.b[1:]
		switch tag {
		case 0:
			n := 1 + len(r.b)
			for _, x := range r.b {
				if x != 0 {
					return e, false
				}
			}
			r.b = nil
			if n > 256 {
				return e, false
			}
			if n == 256 {
				e.Unsure = true
			}
		case 1:
			if e.PublicKey, ok = r.h32(); !ok {
				return
			}
		case 2:
			n, ok := loose()
			if !ok || n > 255 {
				return e, false
			}
			x, ok := r.take(n)
			if !ok {
				return e, false
			}
			if n == 0 && len(e.Nonce) > 0 {
				e.Unsure = true
			}
			e.Nonce = append([]byte{}, x...)
		case 3:
			n, ok := loose()
			if !ok || n != 33 {
				return e, false
			}
			x := len(r.b)
			d, ok := loose()
			if !ok {
				return e, false
			}
			h, ok := r.h32()
			if !ok || x-len(r.b) != 33 {
				return e, false
			}
			e.Tag = &cryptonote.TransactionExtraMergeMiningTag{Depth: d, MerkleRoot: h}
		default:
			return e, false
		}
	}
	return e, true
}

func (r *rd) parent() (p *cryptonote.ParentBlock, ok bool) {
	p = &cryptonote.ParentBlock{}
	v, ok := r.uv(255)
	if !ok {
		return
	}
	p.MajorVersion = byte(v)
	if v, ok = r.uv(255); !ok {
		return
	}
	p.MinorVersion = byte(v)
	if p.Timestamp, ok = r.uv(^uint64(0)); !ok {
		return
	}
	h, ok := r.h32()
	if !ok {
		return
	}
	p.Prev = h
	n, ok := r.take(4)
	if !ok {
		return p, false
	}
	p.Nonce = binary.LittleEndian.Uint32(n)
	if v, ok = r.uv(65535); !ok {
		return
	}
	p.TransactionsCount = uint16(v)
	for ; v > 1; v >>= 1 {
		h, ok := r.h32()
		if !ok {
			return p, false
		}
		p.BaseTransactionBranch = append(p.BaseTransactionBranch, h)
	}
	t, ok := r.prefix()
	if !ok {
		return p, false
	}
	p.BaseTransaction = cryptonote.BaseTransaction{TransactionPrefix: &t}
	e, ok := ParseExtra(t.Extra)
	if !ok || e.Tag == nil || e.Tag.Depth > 256 {
		return p, false
	}
	for i := uint64(0); i < e.Tag.Depth; i++ {
		h, ok := r.h32()
		if !ok {
			return p, false
		}
		p.BlockchainBranch = append(p.BlockchainBranch, h)
	}
	return p, true
}

// ParseBlock is a reference parser of a block, rest is what is left behind it.
func ParseBlock(b []byte) (res *cryptonote.Block, rest []byte, ok bool) {
	r := &rd{b}
	res = &cryptonote.Block{}
	v, ok := r.uv(255)
	if !ok || v < 1 || v > 5 {
		return nil, nil, false
	}
	res.MajorVersion = byte(v)
	if v, ok = r.uv(255); !ok {
		return nil, nil, false
	}
	res.MinorVersion = byte(v)
	merged := res.MajorVersion == 2 || res.MajorVersion == 3
	if !merged {
		if res.Timestamp, ok = r.uv(^uint64(0)); !ok {
			return nil, nil, false
		}
	}
	h, ok := r.h32()
	if !ok {
		return nil, nil, false
	}
	res.PreviousBlockHash = h
	if !merged {
		n, ok := r.take(4)
		if !ok {
			return nil, nil, false
		}
		res.Nonce = binary.LittleEndian.Uint32(n)
	}
	if res.MajorVersion == 5 {
		s, ok := r.sig()
		if !ok {
			return nil, nil, false
		}
		res.Signature = &s
	}
	if merged {
		if res.Parent, ok = r.parent(); !ok {
			return nil, nil, false
		}
		res.Timestamp, res.Nonce = res.Parent.Timestamp, res.Parent.Nonce
	}
	if res.BaseTransaction, ok = r.tx(); !ok {
		return nil, nil, false
	}
	n, ok := r.uv(^uint64(0))
	if !ok {
		return nil, nil, false
	}
	for ; n > 0; n-- {
		h, ok := r.h32()
		if !ok {
			return nil, nil, false
		}
		res.TransactionsHashes = append(res.TransactionsHashes, h)
	}
	return res, r.b, true
}

// ParseTx is a reference parser of a transaction.
func ParseTx(b []byte) (*cryptonote.Transaction, []byte, bool) {
	r := &rd{b}
	t, ok := r.tx()
	return &t, r.b, ok
}

// Same compares content of objects: exported fields, nil and empty slices are the same.
func Same(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue // caches
			}
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Kind() == reflect.Array && a.Type().Elem().Kind() == reflect.Uint8 {
			return a.Interface() == b.Interface()
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	default:
		return a.Interface() == b.Interface()
	}
}

// Generators.

func h32(r *rand.Rand) [32]byte {
	switch r.Intn(12) {
	case 0:
		return [32]byte{}
	default:
		return gen.B32(r)
	}
}

func size(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 127 + r.Intn(3)
	case 1:
		return r.Intn(40)
	default:
		return r.Intn(4)
	}
}

// GenExtra makes an extra field, mostly well formed. depth ≥ 0 forces a mining tag.
func GenExtra(r *rand.Rand, depth int) (b []byte) {
	if r.Intn(6) > 0 {
		b = append(b, 1)
		k := gen.B32(r)
		b = append(b, k[:]...)
	}
	if r.Intn(3) == 0 {
		n := []int{0, 1, 8, 33, 127, 128, 254, 255}[r.Intn(8)]
		b = append(b, 2)
		b = append(b, Uvarint(uint64(n))...)
		b = append(b, gen.Bytes(r, n)...)
	}
	if depth >= 0 {
		t := append([]byte{3}, Tag(r, depth)...)
		if r.Intn(2) == 0 {
			b = append(b, t...)
		} else {
			b = append(t, b...)
		}
	}
	if r.Intn(6) == 0 {
		b = append(b, make([]byte, 1+r.Intn(100))...)
	}
	return
}

// Tag is a size and content of the mining tag. Only depths of one byte fit.
func Tag(r *rand.Rand, depth int) []byte {
	b := Uvarint(33)
	b = append(b, Uvarint(uint64(depth))...)
	k := gen.B32(r)
	return append(b, k[:]...)
}

// GenPrefix makes a transaction prefix.
func GenPrefix(r *rand.Rand, coinbase bool) (t cryptonote.TransactionPrefix) {
	t.Version = byte(r.Intn(256))
	if r.Intn(2) == 0 {
		t.Version = 1
	}
	t.UnlockHeight = gen.U64(r)
	if coinbase {
		t.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: gen.U32(r)}}
	} else {
		for i := size(r); i > 0; i-- {
			if r.Intn(10) == 0 {
				t.Inputs = append(t.Inputs, cryptonote.InputCoinbase{BlockIndex: gen.U32(r)})
				continue
			}
			in := cryptonote.InputKey{Amount: gen.U64(r), KeyImage: h32(r)}
			n := size(r)
			if n > 10 && i > 3 {
				n = 2
			}
			for j := n; j > 0; j-- {
				in.OutputIndexes = append(in.OutputIndexes, gen.U32(r))
			}
			t.Inputs = append(t.Inputs, in)
		}
		// a single key input without ring and coinbases between key inputs are covered by the above
	}
	for i := size(r); i > 0; i-- {
		t.Outputs = append(t.Outputs, cryptonote.TransactionOutput{Amount: gen.U64(r), Target: cryptonote.OutputKey{PublicKey: h32(r)}})
	}
	if r.Intn(3) == 0 {
		t.Extra = gen.Bytes(r, []int{0, 1, 127, 128, 300, 16383, 16384}[r.Intn(7)])
	} else {
		t.Extra = GenExtra(r, -1)
	}
	if t.Extra == nil {
		t.Extra = []byte{}
	}
	return
}

func onlyCoinbase(t *cryptonote.TransactionPrefix) bool {
	if len(t.Inputs) != 1 {
		return len(t.Inputs) == 0
	}
	_, ok := t.Inputs[0].(cryptonote.InputCoinbase)
	return ok
}

// GenTx makes a transaction with signatures for its inputs.
func GenTx(r *rand.Rand, coinbase bool) *cryptonote.Transaction {
	t := &cryptonote.Transaction{TransactionPrefix: GenPrefix(r, coinbase)}
	if !onlyCoinbase(&t.TransactionPrefix) {
		for _, in := range t.Inputs {
			var ss []crypto.Signature
			if k, ok := in.(cryptonote.InputKey); ok {
				for range k.OutputIndexes {
					ss = append(ss, crypto.Signature{C: h32(r), R: h32(r)})
				}
			}
			t.TransactionSignatures = append(t.TransactionSignatures, ss)
		}
	}
	return t
}

// GenBlock makes a block of the version.
func GenBlock(r *rand.Rand, version byte) *cryptonote.Block {
	b := &cryptonote.Block{}
	b.MajorVersion, b.MinorVersion = version, byte(r.Intn(256))
	b.Timestamp, b.PreviousBlockHash, b.Nonce = gen.U64(r), h32(r), gen.U32(r)
	if r.Intn(2) == 0 {
		b.MinorVersion = byte(r.Intn(2))
	}
	if version == 5 {
		b.Signature = &crypto.Signature{C: h32(r), R: h32(r)}
	}
	if version == 2 || version == 3 {
		p := &cryptonote.ParentBlock{MajorVersion: byte(r.Intn(3)), MinorVersion: byte(r.Intn(3)), Timestamp: b.Timestamp, Nonce: b.Nonce, Prev: h32(r)}
		if r.Intn(3) == 0 {
			p.MajorVersion, p.MinorVersion = byte(r.Intn(256)), byte(r.Intn(256))
		}
		p.TransactionsCount = uint16([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, r.Intn(65536)}[r.Intn(19)])
		for v := p.TransactionsCount; v > 1; v >>= 1 {
			p.BaseTransactionBranch = append(p.BaseTransactionBranch, h32(r))
		}
		t := GenPrefix(r, r.Intn(4) > 0)
		depth := []int{0, 1, 2, 5, 127, r.Intn(20)}[r.Intn(6)]
		t.Extra = GenExtra(r, depth)
		p.BaseTransaction = cryptonote.BaseTransaction{TransactionPrefix: &t}
		for i := 0; i < depth; i++ {
			p.BlockchainBranch = append(p.BlockchainBranch, h32(r))
		}
		b.Parent = p
	}
	b.BaseTransaction = *GenTx(r, r.Intn(6) > 0)
	n := size(r)
	if r.Intn(4) == 0 {
		n = r.Intn(70)
	}
	for i := n; i > 0; i-- {
		b.TransactionsHashes = append(b.TransactionsHashes, gen.B32(r))
	}
	return b
}
