package sim

import (
	"bytes"
	"errors"
	"io"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/sirupsen/logrus"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/ref"
)

// Key is a key pair.
type Key struct {
	Sec *big.Int
	Pub [32]byte
}

var (
	poolOnce sync.Once
	pool     []Key
)

// NewKey makes a key pair.
func NewKey(r *rand.Rand) Key {
	b := gen.B32(r)
	n := ref.ModL(b[:])
	return Key{n, ref.Base.Mul(n).Bytes()}
}

// Pool of key pairs for outputs.
func Pool() []Key {
	poolOnce.Do(func() {
		r := rand.New(rand.NewSource(7))
		for i := 0; i < 64; i++ {
			pool = append(pool, NewKey(r))
		}
	})
	return pool
}

// Now is the current time of the network.
func Now() uint64 { return uint64(time.Now().Unix()) }

// Logger writes nothing.
func Logger(all bool) *logrus.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	if all {
		l.SetLevel(logrus.TraceLevel)
	}
	return l
}

// World is a real chain with its model.
type World struct {
	R     *rand.Rand
	Net   *config.Network
	BC    *cryptonote.BlockChain
	Store cryptonote.Storage
	M     *Model
	outs  map[outRef]Key
	omu   sync.Mutex
	raws  [][]byte
	Saved *Made // what some transaction spends
	base  []Entry
}

// Options of the world.
type Options struct {
	Top     uint32 // index of the last block, 0 for the genesis only
	Seg     int    // number of blocks before it, 0 for as many as needed
	TestNet bool
	Cum     uint64 // cumulative difficulty at the start of the run of blocks
	Diff    uint64 // difficulty of its blocks
	Coins   uint64
	Size    func() uint64
	End     uint64 // timestamp of the top
	LogAll  bool
	Wrap    func(s cryptonote.Storage) cryptonote.Storage
	Logger  *logrus.Logger
	of      *World
}

// Genesis returns the network of the world, that is made anew.
func network(test bool) *config.Network {
	if test {
		return config.TestNet()
	}
	return config.MainNet()
}

// Clone makes a block anew from its bytes, as from the wire.
func Clone(b *cryptonote.Block) *cryptonote.Block {
	c := &cryptonote.Block{}
	r := bytes.NewReader(cn.Block(b))
	if err := c.Deserialize(r); err != nil || r.Len() > 0 {
		return nil
	}
	return c
}

// NewWorld makes a chain with a synthetic history that ends at the index o.Top.
func NewWorld(r *rand.Rand, o Options) (*World, error) {
	w := &World{R: r, Net: network(o.TestNet), Store: cryptonote.NewMemoryStorage(), M: newModel(), outs: map[outRef]Key{}}
	w.M.TestNet = o.TestNet
	if o.Wrap != nil {
		w.Store = o.Wrap(w.Store)
	}
	if o.Logger == nil {
		o.Logger = Logger(o.LogAll)
	}
	w.BC = cryptonote.NewBlockChain(w.Net, w.Store, o.Logger)
	g, err := w.BC.GenesisBlock()
	if err != nil {
		return nil, err
	}
	gc := &g.BaseTransaction
	w.M.Genesis = Entry{Block: g, Hash: cn.ID(g), Time: g.Timestamp, Size: uint64(len(cn.Tx(gc))), Diff: 1, Coins: gc.Outputs[0].Amount}
	c := w.M.Genesis
	w.M.byHash[c.Hash] = &c

	switch {
	case o.of != nil:
		w.outs = o.of.outs
		for _, e := range o.of.base {
			e.Block = Clone(e.Block)
			if err := w.push(e); err != nil {
				return nil, err
			}
		}
		w.base = o.of.base
	case o.Top > 0:
		if err := w.segment(o); err != nil {
			return nil, err
		}
	}
	if err := w.BC.Init(); err != nil {
		return nil, err
	}
	return w, nil
}

// Twin is another chain that starts as this one did.
func (w *World) Twin(r *rand.Rand, wrap func(s cryptonote.Storage) cryptonote.Storage, logger *logrus.Logger) (*World, error) {
	return NewWorld(r, Options{TestNet: w.M.TestNet, Wrap: wrap, Logger: logger, of: w})
}

// Prefix is another chain that has the blocks of the entries only.
func (w *World) Prefix(r *rand.Rand, entries []Entry, logger *logrus.Logger) (*World, error) {
	o := &World{outs: map[outRef]Key{}, base: entries}
	return NewWorld(r, Options{TestNet: w.M.TestNet, Logger: logger, of: o})
}

func (w *World) push(e Entry) error {
	info := cryptonote.NewBlockInfo(e.Index, e.Coins)
	info.Hash, info.CumulativeDifficulty, info.Size, info.Timestamp = e.Hash, e.Diff, e.Size, e.Time
	if err := w.Store.PushBlock(e.Block, info, cryptonote.TransactionsDetails{}); err != nil {
		return err
	}
	w.M.push(e)
	return nil
}

func (w *World) segment(o Options) error {
	r := w.R
	if o.Seg == 0 {
		o.Seg = 122
		for _, v := range []byte{Version(o.Top + 1), Version(o.Top - 5)} {
			if n := DiffWindow(v) + 8; n > o.Seg {
				o.Seg = n
			}
		}
	}
	if o.End == 0 {
		o.End = Now() - 3000
	}
	if o.Cum == 0 {
		o.Cum = 1e15
	}
	if o.Diff == 0 {
		o.Diff = 1e6
	}
	if o.Coins == 0 {
		o.Coins = 7e18
	}
	ts := make([]uint64, o.Seg)
	t := o.End
	for i := o.Seg - 1; i >= 0; i-- {
		ts[i] = t
		d := uint64(r.ExpFloat64() * 240)
		if d > 3000 {
			d = 3000
		}
		if r.Intn(15) == 0 { // a bit out of order
			t += d / 4
		} else {
			t -= d
		}
		if r.Intn(20) == 0 {
			t -= d / 3
		}
	}
	prev := gen.B32(r)
	cum, coins := o.Cum, o.Coins
	for i := 0; i < o.Seg; i++ {
		idx := o.Top - uint32(o.Seg-1-i)
		b := w.skeleton(idx, prev, ts[i])
		base := BaseReward(coins)
		b.BaseTransaction.Outputs[0].Amount = base
		h := cn.ID(b)
		size := uint64(len(cn.Tx(&b.BaseTransaction)))
		if o.Size != nil {
			size = o.Size()
		}
		cum += o.Diff*3/4 + uint64(r.Int63n(int64(o.Diff/2)+1)) + 1
		coins += base
		if err := w.push(Entry{Block: b, Hash: h, Index: idx, Time: ts[i], Size: size, Diff: cum, Coins: coins}); err != nil {
			return err
		}
		prev = h
	}
	w.base = append([]Entry{}, w.M.List...)
	return nil
}

func outKey(r *rand.Rand) Key { p := Pool(); return p[r.Intn(len(p))] }

// skeleton is a block without transactions, its reward and signature are to be set.
func (w *World) skeleton(idx uint32, prev crypto.Hash, ts uint64) *cryptonote.Block {
	r := w.R
	b := &cryptonote.Block{}
	b.MajorVersion, b.MinorVersion = Version(idx), byte(r.Intn(2))
	b.Timestamp, b.PreviousBlockHash, b.Nonce = ts, prev, r.Uint32()
	cb := &b.BaseTransaction
	cb.Version, cb.UnlockHeight = 1, uint64(idx)+UnlockDelta
	cb.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: idx}}
	cb.Outputs = []cryptonote.TransactionOutput{{Amount: 1, Target: cryptonote.OutputKey{PublicKey: outKey(r).Pub}}}
	cb.Extra = append([]byte{1}, gen.Bytes(r, 32)...)
	switch b.MajorVersion {
	case 2, 3:
		b.Parent = parent(r, ts, b.Nonce, b.MajorVersion)
	case 5:
		b.Signature = &crypto.Signature{}
	}
	return b
}

func parent(r *rand.Rand, ts uint64, nonce uint32, v byte) *cryptonote.ParentBlock {
	p := &cryptonote.ParentBlock{MajorVersion: byte(r.Intn(2)), Timestamp: ts, Nonce: nonce, Prev: gen.B32(r)}
	if v == 3 {
		p.MajorVersion = byte(r.Intn(256))
	}
	p.TransactionsCount = uint16(1 + r.Intn(8))
	for v := p.TransactionsCount; v > 1; v >>= 1 {
		p.BaseTransactionBranch = append(p.BaseTransactionBranch, gen.B32(r))
	}
	d := r.Intn(4)
	t := cryptonote.TransactionPrefix{Version: 1, UnlockHeight: 60, Inputs: []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: r.Uint32()}}}
	t.Outputs = []cryptonote.TransactionOutput{{Amount: r.Uint64(), Target: cryptonote.OutputKey{PublicKey: outKey(r).Pub}}}
	t.Extra = append(append([]byte{1}, gen.Bytes(r, 32)...), append([]byte{3}, cn.Tag(r, d)...)...)
	p.BaseTransaction = cryptonote.BaseTransaction{TransactionPrefix: &t}
	for i := 0; i < d; i++ {
		p.BlockchainBranch = append(p.BlockchainBranch, gen.B32(r))
	}
	return p
}

// Candidate is a block with its transactions.
type Candidate struct {
	B   *cryptonote.Block
	Raw [][]byte
	Key Key // of the miner
}

// Clone of the candidate that shares nothing with it.
func (c *Candidate) Clone() *Candidate {
	b := Clone(c.B)
	if b == nil {
		return nil
	}
	n := &Candidate{B: b, Key: c.Key}
	for _, r := range c.Raw {
		n.Raw = append(n.Raw, append([]byte{}, r...))
	}
	return n
}

// Next makes the next valid block with transactions.
func (w *World) Next(ts uint64, txs ...*cryptonote.Transaction) (*Candidate, error) {
	c := w.Draft(ts, txs...)
	if !w.Finish(c) {
		return nil, errors.New("reward does not settle")
	}
	return c, nil
}

// TimeRange are the least and, for the moment, the biggest good timestamps of the next block.
func (w *World) TimeRange() (lo, hi uint64) {
	top := w.M.Top()
	v := Version(top.Index + 1)
	if win := w.M.Window(top, TimeWindow(v), true); len(win) == TimeWindow(v) {
		var ts []uint64
		for _, e := range win {
			ts = append(ts, e.Time)
		}
		lo = Median(ts)
	}
	return lo, Now() + FutureLimit(v)
}

// Draft makes the next block, that is to be finished. Zero time picks it at random.
func (w *World) Draft(ts uint64, txs ...*cryptonote.Transaction) *Candidate {
	r := w.R
	top := w.M.Top()
	if ts == 0 {
		lo, hi := w.TimeRange()
		switch r.Intn(6) {
		case 0:
			ts = lo
		case 1:
			ts = hi
		default:
			ts = top.Time + uint64(r.ExpFloat64()*240)
		}
		if ts < lo {
			ts = lo
		}
		if ts > hi {
			ts = hi
		}
	}
	c := &Candidate{B: w.skeleton(top.Index+1, top.Hash, ts), Key: outKey(r)}
	cb := &c.B.BaseTransaction
	cb.Outputs[0].Target = cryptonote.OutputKey{PublicKey: c.Key.Pub}
	if c.B.MajorVersion < 5 {
		for i := r.Intn(4); i > 0; i-- {
			cb.Outputs = append(cb.Outputs, cryptonote.TransactionOutput{Amount: 1, Target: cryptonote.OutputKey{PublicKey: outKey(r).Pub}})
		}
	}
	if r.Intn(3) == 0 {
		cb.Extra = append(append([]byte{}, cb.Extra...), 2, 3, 7, 7, 7)
	}
	for _, t := range txs {
		c.AddRaw(cn.Tx(t))
	}
	return c
}

// AddRaw adds the transaction.
func (c *Candidate) AddRaw(raw []byte) {
	c.Raw = append(c.Raw, raw)
	c.B.TransactionsHashes = append(c.B.TransactionsHashes, ref.Keccak(raw))
}

// SetReward sets outputs of the miner so that they sum to v.
func (c *Candidate) SetReward(v uint64) bool {
	o := c.B.BaseTransaction.Outputs
	n := uint64(len(o))
	if n == 0 || v < n {
		return false
	}
	for i := range o {
		o[i].Amount = v / n
	}
	o[0].Amount += v % n
	return true
}

// Sign signs the block of the fifth version with the key of the miner.
func (w *World) Sign(c *Candidate) {
	if c.B.MajorVersion < 5 {
		return
	}
	if c.B.Signature == nil {
		c.B.Signature = &crypto.Signature{}
	}
	k := gen.B32(w.R)
	_, s, e := ref.Sign(ref.Keccak(cn.HashingBytes(c.B)), c.Key.Sec, ref.ModL(k[:]))
	c.B.Signature.C, c.B.Signature.R = s, e
}

// Finish sets the right reward and signature.
func (w *World) Finish(c *Candidate) bool {
	for i := 0; i < 24; i++ {
		v := w.M.judge(c.B, c.Raw, c.B.Timestamp, true)
		if v.Reward == nil || !v.Reward.IsUint64() {
			return false
		}
		if !has(v.Broken, "reward") {
			w.Sign(c)
			return true
		}
		if !c.SetReward(v.Reward.Uint64()) {
			return false
		}
		if i > 6 { // sizes of the varints chase each other
			cb := &c.B.BaseTransaction
			cb.Extra = append(append([]byte{}, cb.Extra...), 2, 1, byte(i))
		}
	}
	return false
}

// Has tells if the list has the rule.
func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Has tells if the rule is broken.
func (v *Verdict) Has(s string) bool { return has(v.Broken, s) }

// Parent makes a parent block.
func (w *World) Parent(ts uint64, nonce uint32, v byte) *cryptonote.ParentBlock {
	return parent(w.R, ts, nonce, v)
}

// Old is some transaction of the chain.
func (w *World) Old() ([]byte, bool) {
	if len(w.raws) == 0 {
		return nil, false
	}
	return w.raws[w.R.Intn(len(w.raws))], true
}

// Keep remembers accepted transactions for Old.
func (w *World) Keep(raw [][]byte) { w.raws = append(w.raws, raw...) }
