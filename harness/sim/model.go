package sim

import (
	"math/big"
	"sync"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"verifharness/cn"
	"verifharness/ref"
)

// Entry is what the model remembers about a block of the chain.
type Entry struct {
	Block  *cryptonote.Block
	Hash   crypto.Hash
	Index  uint32
	Time   uint64
	Size   uint64
	Diff   uint64 // cumulative
	Coins  uint64
	TxN    uint64
	Images []crypto.KeyImage
	Txs    []crypto.Hash
}

// Model of the chain: the genesis and a run of blocks, that follows it or starts at some higher index.
type Model struct {
	TestNet bool
	Genesis Entry
	List    []Entry
	Points  map[uint32]crypto.Hash
	last    uint32 // last checkpoint
	byHash  map[crypto.Hash]*Entry
	Spent   map[crypto.KeyImage]uint32
	TxAt    map[crypto.Hash]uint32
	MaxNum  uint64

	// Rings finds output keys, nil when the chain can't.
	Rings func(amount uint64, indexes []uint32) (keys [][32]byte, ok bool)
	// Pow judges the work, nil when the chain takes any.
	Pow func(b *cryptonote.Block, diff uint64) bool
}

func newModel() *Model {
	return &Model{Points: map[uint32]crypto.Hash{}, byHash: map[crypto.Hash]*Entry{}, Spent: map[crypto.KeyImage]uint32{},
		TxAt: map[crypto.Hash]uint32{}}
}

// At is the entry at the index or nil.
func (m *Model) At(i uint32) *Entry {
	if i == 0 {
		return &m.Genesis
	}
	if len(m.List) == 0 || i < m.List[0].Index || i > m.Top().Index {
		return nil
	}
	return &m.List[i-m.List[0].Index]
}

// Top of the chain.
func (m *Model) Top() *Entry {
	if len(m.List) == 0 {
		return &m.Genesis
	}
	return &m.List[len(m.List)-1]
}

// ByHash finds the entry.
func (m *Model) ByHash(h crypto.Hash) *Entry {
	e, ok := m.byHash[h]
	if !ok {
		return nil
	}
	return m.At(e.Index)
}

// InZone tells if the index is in the checkpoint zone.
func (m *Model) InZone(i uint32) bool { return m.last != 0 && i <= m.last }

// Window are the last n entries that end with e.
func (m *Model) Window(e *Entry, n int, genesis bool) (r []*Entry) {
	for e != nil && len(r) < n {
		if e.Index == 0 && !genesis {
			break
		}
		r = append(r, e)
		if e.Index == 0 {
			break
		}
		e = m.At(e.Index - 1)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return
}

// Times and Diffs that give difficulty of the block after e.
func (m *Model) history(e *Entry) (ts, cd []uint64) {
	for _, x := range m.Window(e, DiffWindow(Version(e.Index+1)), false) {
		ts, cd = append(ts, x.Time), append(cd, x.Diff)
	}
	return
}

// NextDiff is difficulty after e.
func (m *Model) NextDiff(e *Entry) Diff {
	ts, cd := m.history(e)
	return Difficulty(e.Index, Version(e.Index+1), m.TestNet, ts, cd)
}

// Verdict about the block. Unsure are broken rules that depend on the moment.
type Verdict struct {
	Broken []string
	Reward *big.Int // expected one
	Change *big.Int
	Diff   Diff
	Size   uint64
	Fee    *big.Int
	Images []crypto.KeyImage
	Txs    []crypto.Hash
	// Wraps tells that some sums of amounts are broken, so fee and reward are those of a chain that does not see it.
	Wraps bool
}

func (v *Verdict) add(s string) {
	for _, b := range v.Broken {
		if b == s {
			return
		}
	}
	v.Broken = append(v.Broken, s)
}

// OK tells that no rule is broken.
func (v *Verdict) OK() bool { return len(v.Broken) == 0 }

var points sync.Map

type pointInfo struct{ ok, sub bool }

// point tells if the bytes are a point and if it is in the subgroup of the prime order.
func point(k [32]byte) pointInfo {
	if v, ok := points.Load(k); ok {
		return v.(pointInfo)
	}
	p, ok := ref.Decode(k)
	i := pointInfo{ok, ok && p.InSubgroup()}
	points.Store(k, i)
	return i
}

func pubOK(k crypto.PublicKey) bool { return point(k).ok }

// Judge tells all the rules that the block breaks at the time now.
func (m *Model) Judge(b *cryptonote.Block, raw [][]byte, now uint64) *Verdict {
	return m.judge(b, raw, now, false)
}

// judge without signatures when light.
func (m *Model) judge(b *cryptonote.Block, raw [][]byte, now uint64, light bool) *Verdict {
	v := &Verdict{Fee: new(big.Int)}
	hash := cn.ID(b)
	if m.ByHash(hash) != nil {
		v.add("known block")
		return v
	}
	top := m.Top()
	prev := m.ByHash(b.PreviousBlockHash)
	if prev == nil {
		v.add("unknown parent")
		prev = top
	} else if prev != top {
		v.add("side branch")
	}
	idx := prev.Index + 1
	cb := &b.BaseTransaction

	var txs []*cryptonote.Transaction
	v.Size = uint64(len(cn.Tx(cb)))
	for _, r := range raw {
		t, rest, ok := cn.ParseTx(r)
		if !ok || len(rest) > 0 {
			v.add("transaction bytes")
			return v
		}
		txs = append(txs, t)
		v.Size += uint64(len(r))
	}
	if len(b.TransactionsHashes) != len(raw) {
		v.add("transaction count")
	}
	if v.Size > MaxBlockSize(uint64(idx)) {
		v.add("block size")
	}

	// header
	ver := Version(idx)
	if b.MajorVersion != ver {
		v.add("version")
	}
	if b.MajorVersion == 2 && b.Parent.MajorVersion > 1 {
		v.add("parent version")
	}
	if (b.MajorVersion == 2 || b.MajorVersion == 3) && len(cn.Parent(b.Parent, false)) > 2048 {
		v.add("parent size")
	}
	if b.Timestamp > now+FutureLimit(b.MajorVersion) {
		v.add("future")
	}
	w := m.Window(prev, TimeWindow(b.MajorVersion), true)
	if len(w) == TimeWindow(b.MajorVersion) {
		var ts []uint64
		for _, e := range w {
			ts = append(ts, e.Time)
		}
		if b.Timestamp < Median(ts) {
			v.add("past")
		}
	}

	// miner transaction
	one := len(cb.Inputs) == 1
	var ci cryptonote.InputCoinbase
	if one {
		ci, one = cb.Inputs[0].(cryptonote.InputCoinbase)
	}
	if !one {
		v.add("coinbase input")
	} else if ci.BlockIndex != idx {
		v.add("coinbase height")
	}
	if cb.UnlockHeight != uint64(idx)+UnlockDelta {
		v.add("coinbase unlock")
	}
	sum := new(big.Int)
	for _, o := range cb.Outputs {
		if o.Amount == 0 {
			v.add("coinbase zero output")
		}
		if k, ok := o.Target.(cryptonote.OutputKey); !ok || !pubOK(k.PublicKey) {
			v.add("coinbase key")
		}
		sum.Add(sum, u(o.Amount))
	}
	if sum.BitLen() > 64 {
		v.add("coinbase overflow")
	}
	if idx >= V4s2 && len(cb.Extra) > 1024 {
		v.add("coinbase extra size")
	}
	if b.MajorVersion >= 5 {
		e, ok := cn.ParseExtra(cb.Extra)
		if !ok || e.Tag != nil {
			v.add("coinbase extra")
		}
		if len(cb.Outputs) != 1 {
			v.add("coinbase outputs")
		} else if k, ok := cb.Outputs[0].Target.(cryptonote.OutputKey); ok && !light {
			h := ref.Keccak(cn.HashingBytes(b))
			if b.Signature == nil || !ref.CheckSignature(h, k.PublicKey, b.Signature.C, b.Signature.R) {
				v.add("signature")
			}
		}
	}

	// transactions
	images := map[crypto.KeyImage]bool{}
	seen := map[crypto.Hash]bool{}
	for i, t := range txs {
		h := crypto.Hash(ref.Keccak(raw[i]))
		if i < len(b.TransactionsHashes) && b.TransactionsHashes[i] != h {
			v.add("transaction hash")
		}
		if _, ok := m.TxAt[h]; ok {
			v.add("included transaction")
		}
		if seen[h] {
			v.add("repeated transaction")
		}
		seen[h] = true
		v.Txs = append(v.Txs, h)
		m.judgeTx(v, t, idx, uint64(len(raw[i])), images, light)
	}

	// reward
	var sizes []uint64
	for _, e := range m.Window(prev, 100, true) {
		sizes = append(sizes, e.Size)
	}
	if !v.Fee.IsUint64() && !v.Wraps {
		v.add("fee overflow")
		v.Wraps = true
	}
	fee := new(big.Int).And(v.Fee, u(1<<64-1)).Uint64()
	var ok bool
	if v.Reward, v.Change, ok = Reward(b.MajorVersion, Median(sizes), v.Size, prev.Coins, fee); !ok {
		v.add("size over median")
	} else if v.Wraps {
		if v.Reward.And(v.Reward, u(1<<64-1)).Cmp(new(big.Int).And(sum, u(1<<64-1))) != 0 {
			v.add("reward")
		}
	} else if v.Reward.Cmp(new(big.Int).And(sum, u(1<<64-1))) != 0 {
		v.add("reward")
	}

	// work
	v.Diff = m.NextDiff(prev)
	switch {
	case !v.Diff.OK || v.Diff.V.Sign() == 0:
		v.add("difficulty")
	case m.InZone(idx):
	case m.Pow != nil && !m.Pow(b, v.Diff.V.Uint64()):
		v.add("work")
	}
	if p, ok := m.Points[idx]; ok && p != hash {
		v.add("checkpoint")
	}
	return v
}

func (m *Model) judgeTx(v *Verdict, t *cryptonote.Transaction, idx uint32, size uint64, images map[crypto.KeyImage]bool, light bool) {
	if size > MaxTxSize(idx) {
		v.add("tx size")
	}
	in, out := new(big.Int), new(big.Int)
	var ins, outs []uint64
	ring := 0
	if len(t.Inputs) == 0 {
		v.add("tx no inputs")
	}
	var prefix [32]byte
	if !m.InZone(idx) {
		prefix = ref.Keccak(cn.Prefix(&t.TransactionPrefix))
	}
	own := map[crypto.KeyImage]bool{}
	for i, x := range t.Inputs {
		k, ok := x.(cryptonote.InputKey)
		if !ok {
			v.add("tx input kind")
			continue
		}
		in.Add(in, u(k.Amount))
		ins = append(ins, k.Amount)
		if n := len(k.OutputIndexes); n > ring {
			ring = n
		}
		if own[k.KeyImage] {
			v.add("tx same images")
		} else if images[k.KeyImage] {
			v.add("tx image in block")
		}
		own[k.KeyImage], images[k.KeyImage] = true, true
		v.Images = append(v.Images, k.KeyImage)
		if len(k.OutputIndexes) == 0 {
			v.add("tx empty ring")
		}
		var abs []uint32
		at := uint32(0)
		wrap := false
		for j, o := range k.OutputIndexes {
			if j > 0 && o == 0 {
				v.add("tx same outputs")
			}
			wrap = wrap || at+o < at
			at += o
			abs = append(abs, at)
		}
		if !m.InZone(idx + 1) {
			if !point(k.KeyImage).sub {
				v.add("tx image domain")
			}
		}
		if light || m.InZone(idx) || len(abs) == 0 {
			continue
		}
		if at, ok := m.Spent[k.KeyImage]; ok && at <= idx {
			v.add("tx spent image")
		}
		if m.Rings == nil {
			v.add("tx ring unknown")
			continue
		}
		if wrap {
			v.add("tx ring wraps")
			continue
		}
		keys, ok := m.Rings(k.Amount, abs)
		if !ok {
			v.add("tx ring outputs")
			continue
		}
		var sigs [][2][32]byte
		for _, s := range t.TransactionSignatures[i] {
			sigs = append(sigs, [2][32]byte{s.C, s.R})
		}
		if !ref.CheckRing(prefix, k.KeyImage, keys, sigs, false) {
			v.add("tx ring signature")
		}
	}
	for _, o := range t.Outputs {
		out.Add(out, u(o.Amount))
		outs = append(outs, o.Amount)
		if o.Amount == 0 {
			v.add("tx zero output")
		} else if idx >= V5 && !Pretty(o.Amount) {
			v.add("tx output amount")
		}
		if k, ok := o.Target.(cryptonote.OutputKey); !ok || !pubOK(k.PublicKey) {
			v.add("tx output key")
		}
	}
	if in.BitLen() > 64 {
		v.add("tx inputs overflow")
	}
	if out.BitLen() > 64 {
		v.add("tx outputs overflow")
	}
	if !MixinAllowed(idx, ring) {
		v.add("tx mixin")
	}
	if in.BitLen() > 64 || out.BitLen() > 64 || out.Cmp(in) > 0 {
		fee := new(big.Int).Sub(in, out)
		v.Fee.Add(v.Fee, fee.And(fee, u(1<<64-1)))
		v.Wraps = true
	}
	if in.BitLen() > 64 || out.BitLen() > 64 {
		return
	}
	if in.Sign() == 0 && len(ins) > 0 {
		v.add("tx zero inputs")
	}
	if len(outs) == 0 {
		v.add("tx no outputs")
	}
	if out.Cmp(in) > 0 {
		v.add("tx amounts")
		return
	}
	fee := new(big.Int).Sub(in, out)
	v.Fee.Add(v.Fee, fee)
	if !(fee.Sign() == 0 && Fusion(idx, size, ins, outs)) {
		if fee.Cmp(u(FeeFloor(idx))) < 0 {
			v.add("tx fee")
		}
		if fee.Cmp(u(ExtraFee(idx, uint64(len(t.Extra))))) < 0 {
			v.add("tx extra fee")
		}
	}
}

// Push adds the block that was judged to be right.
func (m *Model) Push(b *cryptonote.Block, v *Verdict, cum uint64) {
	top := m.Top()
	e := Entry{Block: b, Hash: cn.ID(b), Index: top.Index + 1, Time: b.Timestamp, Size: v.Size, Diff: cum,
		Coins: top.Coins + uint64(v.Change.Int64()), TxN: top.TxN + uint64(len(v.Txs)), Images: v.Images, Txs: v.Txs}
	m.push(e)
}

func (m *Model) push(e Entry) {
	m.List = append(m.List, e)
	c := e
	m.byHash[e.Hash] = &c
	for _, i := range e.Images {
		if at, ok := m.Spent[i]; !ok || e.Index < at {
			m.Spent[i] = e.Index
		}
	}
	for _, h := range e.Txs {
		m.TxAt[h] = e.Index
	}
}

// Sparse is the list of hashes that starts synchronization.
func (m *Model) Sparse() (r []crypto.Hash) {
	top := m.Top()
	r = append(r, top.Hash)
	for i := uint32(1); i < top.Index; i *= 2 {
		if e := m.At(top.Index - i); e != nil {
			r = append(r, e.Hash)
		}
	}
	if top.Index > 0 {
		r = append(r, m.Genesis.Hash)
	}
	return
}

// Point registers the checkpoint and tells if it is the first one there.
func (m *Model) Point(i uint32, h crypto.Hash) bool {
	if _, ok := m.Points[i]; ok {
		return false
	}
	m.Points[i] = h
	if i > m.last {
		m.last = i
	}
	return true
}
