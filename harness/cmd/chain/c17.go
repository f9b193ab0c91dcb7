package main

import (
	"math"
	"math/big"
	"math/rand"
	"sync"

	"github.com/r3volut1oner/go-karbo/config"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

// times makes timestamps of n blocks.
func times(r *rand.Rand, n int, hostile bool) []uint64 {
	ts := make([]uint64, n)
	t := uint64(1464595534) + uint64(r.Int63n(1e9))
	kind := r.Intn(9)
	for i := range ts {
		ts[i] = t
		k := kind
		if k == 8 {
			k = r.Intn(8)
		}
		switch k {
		case 0:
			t += sim.Target
		case 1:
			t += uint64(r.ExpFloat64() * sim.Target)
		case 2: // out of order
			t += uint64(r.ExpFloat64()*sim.Target) - uint64(r.Intn(300))
		case 3: // the same
		case 4: // fast
			t += uint64(r.Intn(12))
		case 5: // slow
			t += uint64(r.Intn(8 * sim.Target))
		case 6: // back
			t -= uint64(r.Intn(2 * sim.Target))
		case 7: // limits of one solve time
			t += []uint64{6*sim.Target - 1, 6 * sim.Target, 6*sim.Target + 1, 7 * sim.Target, 7*sim.Target + 1, 1, 0, math.MaxUint64 - 6*sim.Target + 1, math.MaxUint64 - 6*sim.Target, sim.Target / 20}[r.Intn(10)]
		}
		if hostile && r.Intn(20) == 0 {
			t = gen.U64(r)
		}
	}
	return ts
}

// works makes cumulative difficulties of n blocks.
func works(r *rand.Rand, n int, hostile bool) []uint64 {
	cd := make([]uint64, n)
	c := uint64(r.Int63n(1e15))
	if r.Intn(3) == 0 {
		c = uint64(r.Intn(1000))
	}
	lim := []int64{2, 1000, 200000, 1e6, 1e9, 1e11, 1e13, 1e15}[r.Intn(8)]
	flat := r.Intn(3) == 0
	d := 1 + uint64(r.Int63n(lim))
	for i := range cd {
		if !flat {
			d = 1 + uint64(r.Int63n(lim))
		}
		c += d
		cd[i] = c
		if hostile && r.Intn(20) == 0 {
			c = gen.U64(r)
		}
	}
	return cd
}

// heightFor is a height of the last block before a block of the version.
func heightFor(r *rand.Rand, v byte) uint32 {
	switch v {
	case 1:
		return uint32(r.Intn(sim.V2))
	case 2:
		return sim.V2 + uint32(r.Intn(sim.V3-sim.V2))
	case 3:
		return sim.V3 + uint32(r.Intn(sim.V4-sim.V3))
	case 4:
		if r.Intn(2) == 0 {
			return sim.V4s1 - 3 + uint32(r.Intn(6))
		}
		return sim.V4 + uint32(r.Intn(sim.V5-sim.V4))
	}
	switch r.Intn(4) {
	case 0:
		return sim.V5
	case 1:
		return sim.V5 + uint32(r.Intn(123))
	case 2:
		return sim.V5 + 118 + uint32(r.Intn(5))
	}
	return sim.V5 + uint32(r.Int31())
}

func c17(c *mon.Ctx) {
	c.Rule("Next difficulty of the real network is compared with an exact (math/big, rationals for the third version) reference for generated histories of every length, height and version, and next difficulties of real chains that grow over the upgrades are compared with the reference over their history. Hostile histories that do not fit to the machine numbers must only not panic. Non trivial: a distinct history with a difficulty.")
	c.Assume("The third version computes with floating point numbers, its results are compared with the relative tolerance 1e-10 plus 1.")
	c.Assume("Histories are what the chain supplies: a fourth version one has exactly 61 blocks.")

	nets := []*config.Network{config.MainNet(), config.TestNet()}
	one := func(t *mon.T, hostile bool) {
		r := t.Rng
		for k := 0; k < 40; k++ {
			v := byte(1 + r.Intn(5))
			h := heightFor(r, v)
			n := sim.DiffWindow(v)
			if r.Intn(2) == 0 && v != 4 || hostile {
				n = r.Intn(n + 1)
				if r.Intn(3) == 0 {
					n = r.Intn(8)
				}
			}
			if v == 5 && h < sim.V5+120 && !hostile {
				n = sim.DiffWindow(v)
			}
			ts, cd := times(r, n, hostile), works(r, n, hostile)
			if hostile && r.Intn(10) == 0 && n > 0 {
				cd = cd[:r.Intn(n)]
			}
			net := nets[r.Intn(2)]
			test := net == nets[1]
			want := sim.Difficulty(h, v, test, ts, cd)
			t.SetDesc("height %d version %d testnet %v timestamps %v difficulties %v", h, v, test, ts, cd)
			a, b := append([]uint64{}, ts...), append([]uint64{}, cd...)
			got, err := net.NextDifficulty(h, v, a, b)
			for i := range cd {
				if b[i] != cd[i] {
					t.Failf("difficulties of the caller are changed")
				}
			}
			if len(ts) != len(cd) { // the chain never has such ones: no more than no panic is required
				t.Count("uneven histories", 1)
				continue
			}
			if !want.Fits {
				t.Count("histories out of the range", 1)
				continue
			}
			if want.OK != (err == nil) {
				t.Failf("difficulty is expected: %v, got %d %v\n%s", want.OK, got, err, t.Desc())
				return
			}
			if err != nil {
				t.Count("histories without difficulty", 1)
				continue
			}
			if !near(got, want) {
				t.Failf("difficulty is %d, want %v\n%s", got, want.V, t.Desc())
				return
			}
			if v > 1 && !test && want.V.Cmp(big.NewInt(sim.MinDiff)) >= 0 && got < sim.MinDiff {
				t.Failf("difficulty %d is below the floor\n%s", got, t.Desc())
			}
			if got == sim.MinDiff {
				t.Count("difficulties at the floor", 1)
			}
			// same arguments, same result
			a, b = append([]uint64{}, ts...), append([]uint64{}, cd...)
			if again, err := net.NextDifficulty(h, v, a, b); err != nil || again != got {
				t.Failf("difficulty is %d, then %d %v\n%s", got, again, err, t.Desc())
			}
			t.Count("difficulties of version "+string('0'+rune(v)), 1)
			t.Distinct(h, v, test, ts, cd)
		}
	}
	c.Par("histories", c.N(1500, 60000), func(t *mon.T) { one(t, false) })
	c.Par("hostile histories", c.N(1500, 60000), func(t *mon.T) { one(t, true) })

	// Every length of the shortest histories at every version that takes them.
	c.Par("short histories", c.N(40, 400), func(t *mon.T) {
		r := t.Rng
		for _, v := range []byte{1, 2, 3} {
			for n := 0; n <= sim.DiffWindow(v)+3; n++ {
				ts, cd := times(r, n, false), works(r, n, false)
				for i, net := range nets {
					h := heightFor(r, v)
					want := sim.Difficulty(h, v, i == 1, ts, cd)
					got, err := net.NextDifficulty(h, v, append([]uint64{}, ts...), append([]uint64{}, cd...))
					if !want.Fits {
						continue
					}
					if want.OK != (err == nil) || err == nil && !near(got, want) {
						t.Failf("height %d version %d length %d testnet %v: difficulty is %d %v, want %v %v\ntimestamps %v difficulties %v", h, v, n, i == 1, got, err, want.V, want.OK, ts, cd)
						return
					}
					t.Count("short histories", 1)
				}
			}
		}
	})

	// Chains that grow over the upgrades.
	c.Par("chains", c.N(48, 400), func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		b := []uint32{sim.V2, sim.V3, sim.V4, sim.V4s1, sim.V5}[t.I%5]
		o.Top = b - uint32(r.Intn(12))
		if b == sim.V5 && r.Intn(2) == 0 {
			o.Top = b + uint32(r.Intn(130))
		}
		steps := 30
		if t.I%6 == 0 {
			o = sim.Options{TestNet: r.Intn(2) == 0}
			steps = 120
		}
		if b == sim.V5 && t.I%20 == 4 {
			o.Top = b - 3
			steps = 130
		}
		w := world(t, o)
		for k := 0; k < steps; k++ {
			top := w.M.Top()
			want := w.M.NextDiff(top)
			if haveDifficulty {
				real := w.BC.TopBlock()
				got, err := difficultyAfter(w.BC, real)
				if want.Fits && (want.OK != (err == nil) || err == nil && !near(got, want)) {
					fail(t, "difficulty after %d is %d %v, want %v %v", top.Index, got, err, want.V, want.OK)
				}
				t.Count("difficulties of chains", 1)
				// and after an older block
				if e := w.M.At(top.Index - uint32(r.Intn(4))); e != nil && e.Index > 0 && top.Index > 4 {
					want := w.M.NextDiff(e)
					got, err := difficultyAfter(w.BC, w.Store.GetBlock(&e.Hash))
					if want.Fits && (want.OK != (err == nil) || err == nil && !near(got, want)) {
						fail(t, "difficulty after the old %d is %d %v, want %v %v", e.Index, got, err, want.V, want.OK)
					}
				}
			}
			if !want.OK || want.V.Sign() == 0 || !want.Fits {
				break
			}
			x, err := w.Next(0)
			if err != nil {
				break
			}
			mustAdd(t, w, x, "next block")
			t.Distinct(w.M.Top().Hash[:])
		}
		auditFull(t, w, "end")
	})

	// Many goroutines ask at once.
	c.Seq("at once", c.N(20, 200), func(t *mon.T) {
		r := t.Rng
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			v := byte(1 + r.Intn(5))
			n := sim.DiffWindow(v)
			h := heightFor(r, v)
			ts, cd := times(r, n, false), works(r, n, false)
			want, err0 := nets[0].NextDifficulty(h, v, append([]uint64{}, ts...), append([]uint64{}, cd...))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					got, err := nets[0].NextDifficulty(h, v, append([]uint64{}, ts...), append([]uint64{}, cd...))
					if got != want || (err == nil) != (err0 == nil) {
						t.Failf("difficulty is %d alone and %d among others", want, got)
						return
					}
				}
			}()
		}
		wg.Wait()
		t.Count("at once", 1)
	})

	for _, v := range "12345" {
		c.Require("difficulties of version "+string(v), 1000)
	}
	c.Require("difficulties at the floor", 100)
	c.Require("histories out of the range", 100)
	c.Require("blocks accepted", 300)
}
