package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/sirupsen/logrus"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

// slowLog lets other goroutines run wherever the code logs, often inside of its critical sections.
type slowLog struct{ n uint64 }

func (s *slowLog) Levels() []logrus.Level { return logrus.AllLevels }
func (s *slowLog) Fire(*logrus.Entry) error {
	switch atomic.AddUint64(&s.n, 1) % 5 {
	case 0:
		time.Sleep(20 * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
	return nil
}

func slowLogger() *logrus.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.ErrorLevel)
	l.AddHook(&slowLog{})
	return l
}

// points is the reference of checkpoints.
type points map[uint32]byte

func (p points) last() (uint32, bool) {
	var m uint32
	for i := range p {
		if i > m {
			m = i
		}
	}
	return m, len(p) > 0
}

func (p points) zone(i uint32) bool {
	m, _ := p.last()
	return m != 0 && i <= m
}

func (p points) alt(size, i uint32) string {
	const unlock = 10
	switch {
	case i < 1:
		return "genesis"
	case size > unlock && i < size-unlock && !p.zone(i):
		return "deep"
	}
	for j := range p {
		// the last one that the chain has passed is the border
		if j <= size && j >= i {
			return "before"
		}
	}
	return ""
}

type cpOp struct {
	kind byte // a add, z zone, c check, l alternative
	i    uint32
	size uint32
	h    byte
}

func (o cpOp) String() string {
	switch o.kind {
	case 'a':
		return fmt.Sprintf("add %d hash %d", o.i, o.h)
	case 'z':
		return fmt.Sprintf("zone %d", o.i)
	case 'c':
		return fmt.Sprintf("check %d hash %d", o.i, o.h)
	}
	return fmt.Sprintf("alternative of %d at %d", o.i, o.size)
}

func cpWant(p points, o cpOp) string {
	switch o.kind {
	case 'a':
		if _, ok := p[o.i]; ok {
			return "exists"
		}
		return ""
	case 'z':
		return fmt.Sprint(p.zone(o.i))
	case 'c':
		if h, ok := p[o.i]; ok && h != o.h {
			return "failed"
		}
		return ""
	}
	return p.alt(o.size, o.i)
}

func cpHash(h byte) crypto.Hash { return crypto.Hash{h, 31: 7} }

func cpErr(err error) string {
	for e, s := range map[error]string{config.ErrCheckpointsAlreadyExists: "exists", config.ErrCheckpointsFailed: "failed",
		config.ErrCheckpointsTooDeepReorg: "deep", config.ErrCheckpointsAltBeforeCheckpoint: "before", config.ErrCheckpointsAltBlockGenesis: "genesis"} {
		if errors.Is(err, e) {
			return s
		}
	}
	if err == nil {
		return ""
	}
	return err.Error()
}

func cpDo(cp config.Checkpoints, o cpOp) string {
	h := cpHash(o.h)
	switch o.kind {
	case 'a':
		return cpErr(cp.AddCheckpoint(o.i, h))
	case 'z':
		return fmt.Sprint(cp.IsInCheckpointZone(o.i))
	case 'c':
		return cpErr(cp.CheckBlock(o.i, &h))
	}
	return cpErr(cp.AlternativeBlockAllowed(o.size, o.i))
}

// universe makes indexes that are near each other.
func universe(r *rand.Rand) func() uint32 {
	var l []uint32
	base := []uint32{0, 1, 12, 700000, 1 << 31, 1<<32 - 30}[r.Intn(6)]
	for n := 2 + r.Intn(10); n > 0; n-- {
		l = append(l, base+uint32(r.Intn(30)))
	}
	if r.Intn(3) == 0 {
		l = append(l, 0)
	}
	if r.Intn(4) == 0 {
		l = append(l, gen.U32(r), 1<<32-1)
	}
	return func() uint32 {
		i := l[r.Intn(len(l))]
		switch r.Intn(4) {
		case 0:
			i += uint32(r.Intn(23)) - 11
		}
		return i
	}
}

func someOp(r *rand.Rand, idx func() uint32) cpOp {
	o := cpOp{kind: "azcl"[r.Intn(4)], i: idx(), h: byte(r.Intn(3))}
	o.size = idx() + uint32(r.Intn(3))
	if r.Intn(2) == 0 {
		o.size = o.i + uint32(r.Intn(26)) - 2
	}
	return o
}

var cpModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		p := parsePoints(state.(string))
		o := in.(cpOp)
		if cpWant(p, o) != out.(string) {
			return false, state
		}
		if o.kind == 'a' && out.(string) == "" {
			p[o.i] = o.h
			return true, formatPoints(p)
		}
		return true, state
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

func formatPoints(p points) string {
	var l []string
	for i, h := range p {
		l = append(l, fmt.Sprintf("%d:%d", i, h))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func parsePoints(s string) points {
	p := points{}
	for _, f := range strings.Fields(s) {
		var i uint32
		var h byte
		fmt.Sscanf(f, "%d:%d", &i, &h)
		p[i] = h
	}
	return p
}

// record is a history of calls of many goroutines.
type record struct {
	start time.Time
	mu    sync.Mutex
	ops   []porcupine.Operation
}

func newRecord() *record { return &record{start: time.Now()} }

func (r *record) now() int64 { return int64(time.Since(r.start)) }

func (r *record) do(client int, in interface{}, f func() interface{}) interface{} {
	a := r.now()
	out := f()
	b := r.now()
	r.mu.Lock()
	r.ops = append(r.ops, porcupine.Operation{ClientId: client, Input: in, Call: a, Output: out, Return: b})
	r.mu.Unlock()
	return out
}

// overlaps counts pairs of calls that ran at once.
func (r *record) overlaps() (n int64) {
	for i := range r.ops {
		for j := range r.ops[:i] {
			a, b := &r.ops[i], &r.ops[j]
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return
}

func (r *record) String() string {
	sort.Slice(r.ops, func(i, j int) bool { return r.ops[i].Call < r.ops[j].Call })
	var s strings.Builder
	for _, o := range r.ops {
		fmt.Fprintf(&s, "%d..%d client %d: %v -> %v\n", o.Call/1000, o.Return/1000, o.ClientId, o.Input, o.Output)
	}
	return s.String()
}

// judge checks that the history is that of whole operations in some order.
func (r *record) judge(t *mon.T, m porcupine.Model, what string) {
	switch porcupine.CheckOperationsTimeout(m, r.ops, 20*time.Second) {
	case porcupine.Illegal:
		fail(t, "%s: no order of whole operations explains the history\n%s", what, r)
	case porcupine.Unknown:
		t.Count("histories not decided in time", 1)
	default:
		t.Count("histories decided", 1)
	}
	t.Count("calls recorded", int64(len(r.ops)))
	t.Count("pairs of calls that overlap", r.overlaps())
	t.Distinct(r.String())
}

func c19(c *mon.Ctx) {
	c.Rule("Sequences of registrations and queries are compared call by call with a plain reference; recorded concurrent histories are checked by a linearizability checker (porcupine) against the same reference, under the race detector and with delays inside of the critical sections; chains take and refuse blocks at checkpointed heights, also while checkpoints are registered. Non trivial: a distinct sequence or history.")
	c.Assume("A case that does not end within its time limit is reported as a deadlock.")

	c.ParL("sequences", c.N(1500, 40000), 8, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		cp := config.NewCheckpoints(slowLogger())
		p := points{}
		idx := universe(r)
		var log []string
		for k := 0; k < 150; k++ {
			o := someOp(r, idx)
			if k > 60 && o.kind == 'a' && r.Intn(3) > 0 {
				o.kind = 'z'
			}
			want := cpWant(p, o)
			got := cpDo(cp, o)
			log = append(log, fmt.Sprint(o))
			if got != want {
				fail(t, "%v: %q, want %q, after %v", o, got, want, log)
			}
			if o.kind == 'a' && want == "" {
				p[o.i] = o.h
			}
			t.Count("answer "+string(o.kind)+" "+want, 1)
		}
		// every registered one stays as it was
		for i, h := range p {
			for x := byte(0); x < 3; x++ {
				hash := cpHash(x)
				if err := cp.CheckBlock(i, &hash); (err == nil) != (x == h) {
					fail(t, "checkpoint %d of hash %d: hash %d gives %v", i, h, x, err)
				}
			}
		}
		// hashes that differ in any byte are different
		for i, h := range p {
			hash := cpHash(h)
			hash[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			if cp.CheckBlock(i, &hash) == nil {
				fail(t, "checkpoint %d: another hash is accepted", i)
			}
			if !cp.IsInCheckpointZone(i) && (i != 0 || len(p) > 1 && maxPoint(p) != 0) {
				fail(t, "checkpoint %d is out of the zone", i)
			}
		}
		t.Distinct(strings.Join(log, ","))
	})

	c.ParL("concurrent", c.N(400, 8000), 4, 90*time.Second, func(t *mon.T) {
		r := t.Rng
		cp := config.NewCheckpoints(slowLogger())
		idx := universe(r)
		rec := newRecord()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 3+r.Intn(4); g++ {
			var ops []cpOp
			for k := 0; k < 6+r.Intn(6); k++ {
				ops = append(ops, someOp(r, idx))
			}
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range ops {
					rec.do(g, o, func() interface{} { return cpDo(cp, o) })
				}
			}()
		}
		close(start)
		wg.Wait()
		rec.judge(t, cpModel, "checkpoints")
	})

	// Many goroutines register the same heights with different hashes: the first stays, and only one is the first.
	c.ParL("same heights", c.N(60, 1000), 4, 90*time.Second, func(t *mon.T) {
		r := t.Rng
		cp := config.NewCheckpoints(slowLogger())
		const n, gs = 40, 6
		heights := r.Perm(1000)[:n]
		var won [n]int32
		var winner [n]int32
		var wg sync.WaitGroup
		var stop int32
		for g := 0; g < gs; g++ {
			g := g
			order := r.Perm(n)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, k := range order {
					if cp.AddCheckpoint(uint32(heights[k]), cpHash(byte(g))) == nil {
						atomic.AddInt32(&won[k], 1)
						atomic.StoreInt32(&winner[k], int32(g))
						h := cpHash(byte(g))
						if cp.CheckBlock(uint32(heights[k]), &h) != nil || !cp.IsInCheckpointZone(uint32(heights[k])) && heights[k] != 0 {
							t.Failf("registered checkpoint %d is not there", heights[k])
						}
					}
				}
			}()
		}
		// the zone never shrinks
		var rg sync.WaitGroup
		for g := 0; g < 2; g++ {
			rg.Add(1)
			seed := r.Int63()
			go func() {
				defer rg.Done()
				r := rand.New(rand.NewSource(seed))
				seen := uint32(0)
				for atomic.LoadInt32(&stop) == 0 {
					i := uint32(r.Intn(1000))
					in := cp.IsInCheckpointZone(i)
					if in && i > seen {
						seen = i
					}
					if !in && i <= seen && i > 0 {
						t.Failf("height %d left the zone, %d was there", i, seen)
						return
					}
					cp.AlternativeBlockAllowed(uint32(r.Intn(1000)), i)
					t.Count("zone observations", 1)
				}
			}()
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		rg.Wait()
		for k := range won {
			if won[k] != 1 {
				t.Failf("checkpoint %d is registered %d times", heights[k], won[k])
			}
			for g := 0; g < gs; g++ {
				h := cpHash(byte(g))
				if (cp.CheckBlock(uint32(heights[k]), &h) == nil) != (g == int(winner[k])) {
					t.Failf("checkpoint %d is not that of the first", heights[k])
				}
			}
		}
		t.Count("contended heights", n)
	})

	// Blocks at checkpointed heights.
	c.ParL("chain", c.N(60, 600), 8, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		if t.I%4 == 0 {
			o = sim.Options{TestNet: o.TestNet}
		}
		w := world(t, o)
		if havePow {
			// outside of the zone no block has enough work
			w.M.Pow = func(b *cryptonote.Block, d uint64) bool { return false }
			setPow(w, w.M.Pow)
			defer dropPow(w)
		}
		for k := 0; k < 8; k++ {
			x := next(t, w)
			i := w.M.Top().Index + 1
			var hash crypto.Hash = gen.B32(r)
			switch r.Intn(6) {
			case 0, 1, 2: // the right one
				hash = idOf(x)
			case 3: // of another block
				hash = w.M.Top().Hash
			case 4: // one bit
				hash = idOf(x)
				hash[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			}
			switch r.Intn(4) {
			case 0: // a later one, and none for this height
				checkpoint(t, w, i+1+uint32(r.Intn(40)), hash)
			case 1: // both
				checkpoint(t, w, i+1+uint32(r.Intn(40)), gen.B32(r))
				fallthrough
			default:
				checkpoint(t, w, i, hash)
			}
			if r.Intn(3) == 0 { // another attempt does not change it
				checkpoint(t, w, i, idOf(x))
			}
			ok := submit(t, w, x, "checkpointed block")
			if ok {
				t.Count("checkpointed blocks accepted", 1)
				continue
			}
			t.Count("checkpointed blocks refused", 1)
			// nothing else can go there
			y := next(t, w)
			if h, pinned := w.M.Points[i]; pinned && h != idOf(y) && submit(t, w, y, "another block") {
				fail(t, "block %x is accepted at the checkpoint %x", idOf(y), h)
			}
			t.Distinct(hash[:], i)
			break
		}
		auditFull(t, w, "end")
	})

	// The chain takes blocks while checkpoints are registered.
	c.ParL("chain at once", c.N(30, 300), 8, 120*time.Second, func(t *mon.T) {
		r := t.Rng
		a := world(t, sim.Options{TestNet: true, Top: pickTop(r)})
		zone(t, a, a.M.Top().Index+1000)
		base := a.M.Top().Index
		var blocks []*sim.Candidate
		for k := 0; k < 12; k++ {
			if v := a.M.NextDiff(a.M.Top()); !v.OK || v.V.Sign() == 0 {
				break
			}
			x := next(t, a)
			mustAdd(t, a, x, "draft")
			blocks = append(blocks, x.Clone())
		}
		w, err := a.Twin(rand.New(rand.NewSource(r.Int63())), nil, slowLogger())
		if err != nil {
			fail(t, "twin: %v", err)
		}
		zone(t, w, base+1000)
		bad := uint32(r.Intn(len(blocks) + 3)) // the index of the wrong checkpoint
		var done [64]int32                     // 1 after the checkpoint is registered
		var wg sync.WaitGroup
		perm := r.Perm(len(blocks))
		for g := 0; g < 2; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, k := range perm {
					if k%2 != g {
						continue
					}
					h := idOf(blocks[k])
					if uint32(k) == bad {
						h[3] ^= 1
					}
					if err := w.BC.Checkpoints.AddCheckpoint(base+1+uint32(k), h); err != nil {
						t.Failf("checkpoint %d is not added: %v", base+1+uint32(k), err)
					}
					atomic.StoreInt32(&done[k], 1)
					runtime.Gosched()
				}
			}()
		}
		wg.Add(1)
		var added int
		go func() {
			defer wg.Done()
			for k, b := range blocks {
				pinned := atomic.LoadInt32(&done[k]) == 1
				err := w.BC.AddBlock(b.B, b.Raw)
				if err != nil && uint32(k) != bad {
					t.Failf("block %d of %d is refused: %v", k, len(blocks), err)
					return
				}
				if err == nil && uint32(k) == bad && pinned {
					t.Failf("block %d of %d is accepted against the checkpoint", k, len(blocks))
					return
				}
				if err != nil {
					t.Count("blocks refused by a new checkpoint", 1)
					return
				}
				added++
			}
		}()
		wg.Wait()
		if h := w.BC.Height(); int(h) != int(base)+1+added {
			t.Failf("height is %d, want %d", h, int(base)+1+added)
		}
		t.Count("chains at once", 1)
	})

	for _, a := range []string{"a ", "a exists", "z true", "z false", "c ", "c failed", "l ", "l genesis", "l deep", "l before"} {
		c.Require("answer "+a, 200)
	}
	c.Require("histories decided", 100)
	c.Require("pairs of calls that overlap", 1000)
	c.Require("zone observations", 1000)
	c.Require("checkpointed blocks accepted", 20)
	c.Require("checkpointed blocks refused", 20)
	c.Require("chains at once", 10)
}

func idOf(c *sim.Candidate) crypto.Hash { return cn.ID(c.B) }

func maxPoint(p points) uint32 { m, _ := p.last(); return m }
