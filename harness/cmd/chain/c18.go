package main

import (
	"math"
	"math/rand"
	"sync"

	"github.com/r3volut1oner/go-karbo/config"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

// pars are everything that depends on the height.
type pars struct {
	version                   byte
	block, tx, fusion         uint64
	future, zone              uint64
	window, diff              uint32
	fee, feeFloor             uint64
	unlock, reward            uint32
	minIn, ratio              byte
	dust                      uint64
	minMixin, maxMixin        int
	perByte100, perByte101    uint64
	perByte1000, perByteEmpty uint64
}

func parsOf(n *config.Network, h uint32) pars {
	v := n.GetBlockMajorVersion(h)
	f := n.MinimalFee(h)
	return pars{
		v, n.MaxBlockSize(uint64(h)), n.MaxTransactionSize(h), n.FusionMaxTxSize(h),
		n.BlockFutureTimeLimit(v), n.BlockGrantedFullRewardZoneByBlockVersion(v),
		n.BlockTimestampCheckWindow(v), n.DifficultyBlocksCountByBlockVersion(v),
		f, n.MinimalFeeValidator(h),
		n.MinedMoneyUnlockWindow(), n.RewardBlockWindow(),
		n.FusionTxMinInputCount(), n.FusionTxMinInOutCountRatio(),
		n.DefaultDustThreshold(),
		n.MinMixin(), n.MaxMixin(),
		n.GetFeePerByte(100, f), n.GetFeePerByte(101, f), n.GetFeePerByte(1000, f), n.GetFeePerByte(0, f),
	}
}

func wantPars(h uint32) pars {
	v := sim.Version(h)
	f := sim.MinFee(h)
	fusion := uint64(300000)
	if h > sim.V3 {
		fusion = 30000
	}
	return pars{
		v, sim.MaxBlockSize(uint64(h)), sim.MaxTxSize(h), fusion,
		sim.FutureLimit(v), sim.FullZone(v),
		uint32(sim.TimeWindow(v)), uint32(sim.DiffWindow(v)),
		f, sim.FeeFloor(h),
		10, 100,
		12, 4,
		100000000,
		2, 20,
		0, f / 100, 900 * (f / 100), 0,
	}
}

func someHeight(r *rand.Rand) uint32 {
	switch r.Intn(3) {
	case 0:
		return bounds[r.Intn(len(bounds))] + uint32(r.Intn(9)) - 4
	case 1:
		return uint32(r.Intn(1000000))
	}
	return uint32(gen.U64(r))
}

func c18(c *mon.Ctx) {
	c.Rule("Every parameter of the main and the test network is compared with a table of the network schedule at every height up to 1048576 (the last upgrade is at 700000), at random ones above and, many times, around the upgrades; blocks of the scheduled version are added to real chains over every upgrade and others are refused. Non trivial: a distinct height on a network.")
	c.Assume("The schedule is the one of the Karbo network with the upgrade heights 60000, 216000, 216394, 266000, 300000, 500000, 667000 and 700000.")

	nets := []*config.Network{config.MainNet(), config.TestNet()}
	const chunk = 1 << 13
	c.Par("all heights", 2*(1<<20)/chunk, func(t *mon.T) {
		n := nets[t.I%2]
		from := uint32(t.I / 2 * chunk)
		prev := parsOf(n, from)
		for h := from; h < from+chunk; h++ {
			got, want := parsOf(n, h), wantPars(h)
			if got != want {
				t.Failf("%s height %d: parameters are %+v, want %+v", n.Name, h, got, want)
				return
			}
			if got.version < prev.version || got.block < prev.block {
				t.Failf("height %d: version or size limit go back", h)
				return
			}
			if got.version != prev.version {
				t.Count("upgrades seen", 1)
			}
			prev = got
			t.Distinct(t.I%2, h)
		}
		// over the end of the chunk
		got := parsOf(n, from+chunk)
		if got.version != prev.version {
			t.Count("upgrades seen", 1)
		}
		t.Count("heights", chunk)
	})

	c.Par("random heights", c.N(400, 8000), func(t *mon.T) {
		r := t.Rng
		for k := 0; k < 200; k++ {
			i := r.Intn(2)
			h, g := someHeight(r), someHeight(r)
			if h > g {
				h, g = g, h
			}
			a, b := parsOf(nets[i], h), parsOf(nets[i], g)
			if w := wantPars(h); a != w {
				t.Failf("height %d: parameters are %+v, want %+v", h, a, w)
				return
			}
			if a.version > b.version || a.block > b.block || a.zone > b.zone || a.tx < b.tx {
				t.Failf("parameters of %d are after ones of %d: %+v %+v", h, g, a, b)
				return
			}
			t.Distinct(i, h)
			t.Count("heights", 2)
			// fees of any extra
			e := uint64(r.Intn(3000))
			f := sim.MinFee(h)
			want := uint64(0)
			if e > 100 {
				want = f / 100 * (e - 100)
			}
			if got := nets[i].GetFeePerByte(e, f); got != want {
				t.Failf("fee of %d bytes of extra at %d is %d, want %d", e, h, got, want)
				return
			}
			// bigger heights of the size limit
			if x := gen.U64(r); x <= math.MaxUint64/(100*1024) {
				if got := nets[i].MaxBlockSize(x); got != sim.MaxBlockSize(x) {
					t.Failf("size limit at %d is %d, want %d", x, got, sim.MaxBlockSize(x))
					return
				}
				t.Count("size limits", 1)
			}
		}
	})

	// Parameters of a version that is not scheduled yet are ones of the last.
	c.Seq("versions", 256, func(t *mon.T) {
		v := byte(t.I)
		if v == 0 {
			return
		}
		n := nets[t.Rng.Intn(2)]
		w := v
		if w > 5 {
			w = 5
		}
		if a, b := n.BlockFutureTimeLimit(v), sim.FutureLimit(w); a != b {
			t.Failf("future limit of version %d is %d, want %d", v, a, b)
		}
		if a, b := n.BlockTimestampCheckWindow(v), uint32(sim.TimeWindow(w)); a != b {
			t.Failf("timestamp window of version %d is %d, want %d", v, a, b)
		}
		if a, b := n.BlockGrantedFullRewardZoneByBlockVersion(v), sim.FullZone(w); a != b {
			t.Failf("reward zone of version %d is %d, want %d", v, a, b)
		}
		if a, b := n.DifficultyBlocksCountByBlockVersion(v), uint32(sim.DiffWindow(w)); a != b {
			t.Failf("difficulty window of version %d is %d, want %d", v, a, b)
		}
		t.Count("versions", 1)
	})

	// The same answer always, whatever order the schedule is walked in.
	c.Par("again", c.N(60, 600), func(t *mon.T) {
		r := t.Rng
		fresh := []*config.Network{config.MainNet(), config.TestNet()}
		for k := 0; k < 40; k++ {
			h := someHeight(r)
			want := wantPars(h)
			for j := 0; j < 40; j++ {
				n := nets[r.Intn(2)]
				if j%4 == 0 {
					n = fresh[r.Intn(2)]
				}
				if got := parsOf(n, h); got != want {
					t.Failf("height %d asked again: parameters are %+v, want %+v", h, got, want)
					return
				}
				t.Count("asked again", 1)
			}
		}
	})
	c.Seq("at once", c.N(10, 100), func(t *mon.T) {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			seed := t.Rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for k := 0; k < 300; k++ {
					h := someHeight(r)
					if got, want := parsOf(nets[k%2], h), wantPars(h); got != want {
						t.Failf("height %d asked at once: parameters are %+v, want %+v", h, got, want)
						return
					}
				}
			}()
		}
		wg.Wait()
		t.Count("at once", 1)
	})

	// Amounts are pretty or not, in the tables of the network.
	c.Par("pretty amounts", c.N(100, 2000), func(t *mon.T) {
		r := t.Rng
		for k := 0; k < 1000; k++ {
			a := gen.U64(r)
			switch r.Intn(3) {
			case 0:
				a = uint64(1+r.Intn(9)) * sim.Pow10(r.Intn(19))
			case 1:
				a = uint64(1+r.Intn(9))*sim.Pow10(r.Intn(19)) + uint64(r.Intn(3)) - 1
			}
			if got, want := nets[r.Intn(2)].IsValidDecomposedAmount(a), sim.Pretty(a); got != want {
				t.Failf("amount %d is pretty: %v, want %v", a, got, want)
				return
			}
			t.Count("amounts", 1)
		}
	})

	// Chains go over every upgrade with blocks of the scheduled version, and of no other one.
	c.Par("upgrades", c.N(40, 400), func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		o.Top = bounds[t.I%len(bounds)] - 3
		o.TestNet = r.Intn(2) == 0
		w := world(t, o)
		for k := 0; k < 6; k++ {
			i := w.M.Top().Index + 1
			x := next(t, w)
			if x.B.MajorVersion != sim.Version(i) {
				t.Failf("generator: version %d at %d", x.B.MajorVersion, i)
			}
			for v := byte(1); v <= 5; v++ {
				if v == x.B.MajorVersion {
					continue
				}
				y := x.Clone()
				asVersion(w, y, v)
				if r.Intn(2) == 0 {
					w.Finish(y)
				} else {
					w.Sign(y)
				}
				if submit(t, w, y, "other version") {
					fail(t, "block of version %d is accepted at %d", v, i)
				}
				t.Count("versions refused", 1)
			}
			mustAdd(t, w, x, "next block")
		}
		t.Count("upgrades passed", 1)
	})

	c.Require("heights", 1<<21)
	c.Require("upgrades seen", 8)
	c.Require("upgrades passed", 20)
	c.Require("versions refused", 500)
	c.Require("only version", 100)
	c.Require("asked again", 10000)
	c.Require("amounts", 1000)
	c.Require("size limits", 1000)
}
