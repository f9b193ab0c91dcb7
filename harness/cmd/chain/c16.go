package main

import (
	"math"
	"math/big"

	"github.com/r3volut1oner/go-karbo/config"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/sim"
)

func c16(c *mon.Ctx) {
	c.Rule("Reward of the real network is compared with exact numbers for edge-laden versions, medians, sizes, supplies and fees, and along the whole emission from the genesis to the tail. Blocks of aimed sizes with fees are given to real chains with the right reward and with near wrong ones, and recorded coins are compared with the sum of emissions. Non trivial: a distinct set of arguments or an accepted block.")
	c.Assume("Medians are below 2^32 and reward with fees is below 2^64, as in the network.")

	nets := []*config.Network{config.MainNet(), config.TestNet()}
	two32 := uint64(1) << 32
	c.Par("formula", c.N(4000, 200000), func(t *mon.T) {
		r := t.Rng
		for k := 0; k < 100; k++ {
			v := byte(1 + r.Intn(5))
			z := sim.FullZone(v)
			med := z + uint64(r.Intn(5)) - 2
			switch r.Intn(5) {
			case 0:
				med = uint64(r.Int63n(int64(two32)))
			case 1:
				med = gen.U64(r) % two32
			case 2:
				med = z + uint64(r.Int63n(3e6))
			case 3:
				med = uint64(r.Int63n(int64(z)))
			}
			m := med
			if m < z {
				m = z
			}
			var size uint64
			switch r.Intn(6) {
			case 0:
				size = m + uint64(r.Intn(5)) - 2
			case 1:
				size = 2*m + uint64(r.Intn(5)) - 2
			case 2:
				size = uint64(r.Int63n(int64(m)))
			default:
				size = m + uint64(r.Int63n(int64(m)))
			}
			coins := uint64(r.Int63n(9e18)) * 2
			switch r.Intn(6) {
			case 0:
				coins = uint64(r.Int63n(1e19/2)) + uint64(r.Int63n(1e19/2))
			case 1:
				coins = sim.Supply + uint64(r.Intn(5)) - 2
			case 2:
				// where the tail starts
				coins = sim.Supply - (1000000000000+uint64(r.Intn(3))-1)<<18 + uint64(r.Intn(1<<19)) - 1<<18
			case 3:
				coins = sim.Supply - 1000000000000 + uint64(r.Intn(5)) - 2
			case 4:
				coins = uint64(r.Intn(1000))
			}
			fee := uint64(0)
			switch r.Intn(5) {
			case 0:
				fee = uint64(r.Int63n(1e15))
			case 1:
				fee = gen.U64(r) >> 1
			case 2:
				fee = uint64(r.Int63n(100))
			case 3:
				fee = uint64(1e8) * uint64(r.Intn(1000))
			}
			want, change, ok := sim.Reward(v, med, size, coins, fee)
			if ok && !want.IsUint64() {
				continue
			}
			n := nets[r.Intn(2)]
			rw, em, err := n.GetBlockReward(v, med, size, coins, fee)
			t.Distinct(v, med, size, coins, fee)
			if ok != (err == nil) {
				t.Failf("version %d median %d size %d coins %d fee %d: allowed %v, got %v", v, med, size, coins, fee, ok, err)
				return
			}
			if !ok {
				t.Count("oversized blocks", 1)
				if rw != 0 || em != 0 {
					t.Failf("oversized block gets a reward %d %d", rw, em)
				}
				continue
			}
			mod := new(big.Int).And(change, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
			if rw != want.Uint64() || em != mod {
				t.Failf("version %d median %d size %d coins %d fee %d: reward %d emission %d, want %v %v", v, med, size, coins, fee, rw, em, want, change)
				return
			}
			t.Count("rewards", 1)
			if size > m {
				t.Count("penalized rewards", 1)
			}
		}
	})

	// All the emission block by block.
	c.ParL("emission", 3, 3, 2*mon.DefaultLimit, func(t *mon.T) {
		n := nets[t.I%2]
		coins := uint64(0)
		if t.I == 2 { // with penalties
			coins = 12345
		}
		steps := c.N(1500000, 20000000)
		r := t.Rng
		started := false
		for i := 0; i < steps; i++ {
			v := sim.Version(uint32(i))
			size, fee := uint64(100), uint64(0)
			if t.I == 2 && i%3 == 0 {
				size = sim.FullZone(v) + uint64(r.Intn(900000))%sim.FullZone(v)
				fee = uint64(r.Intn(1e9))
			}
			rw, em, err := n.GetBlockReward(v, 0, size, coins, fee)
			var want, change uint64
			if size == 100 {
				want = sim.BaseReward(coins)
				change = want
			} else {
				a, b, _ := sim.Reward(v, 0, size, coins, fee)
				want, change = a.Uint64(), uint64(b.Int64())
			}
			if err != nil || rw != want || em != change {
				t.Failf("block %d with coins %d size %d fee %d: reward %d emission %d %v, want %d %d", i, coins, size, fee, rw, em, err, want, change)
				return
			}
			if size == 100 && rw == 0 && coins > 1e9 {
				t.Failf("block %d with coins %d has no reward", i, coins)
				return
			}
			if !started && coins >= sim.Supply-1000000000000<<18 {
				started = true
				t.Count("tails of the emission", 1)
			}
			coins += em
			if int64(i)%100000 == 0 {
				t.Distinct(i, coins)
			}
		}
		t.Count("emission blocks", int64(steps))
	})

	// Whole blocks with penalties and fees, and near wrong rewards.
	c.ParL("blocks", c.N(60, 900), 8, mon.DefaultLimit, func(t *mon.T) {
		r := t.Rng
		o := someOptions(r)
		switch r.Intn(3) {
		case 0:
			m := int64(1e6 + r.Int63n(12e5))
			o.Size = func() uint64 { return uint64(m) + uint64(r.Intn(3)) }
		case 1:
			o.Top = 1000 + uint32(r.Intn(58000))
			o.Size = func() uint64 { return uint64(r.Intn(200000)) }
		}
		if r.Intn(3) == 0 {
			o.Coins = []uint64{sim.Supply - 1000000000000<<18 - uint64(r.Intn(1e15)), sim.Supply - uint64(r.Intn(1e13)), 1000, sim.Supply + uint64(r.Intn(1e15))}[r.Intn(4)]
		}
		blocks := 3
		first := t.I%4 == 3
		if first { // the genesis counts in the median
			o.Top, blocks = 0, 8
		}
		w := world(t, o)
		zone(t, w, o.Top+100)
		start := w.M.Top().Coins
		total := new(big.Int)
		for k := 0; k < blocks; k++ {
			var s []uint64
			for _, e := range w.M.Window(w.M.Top(), 100, true) {
				s = append(s, e.Size)
			}
			med := sim.Median(s)
			if z := sim.FullZone(sim.Version(index(w))); med < z {
				med = z
			}
			goal := med - 2 + uint64(r.Intn(5))
			if r.Intn(3) > 0 {
				goal = med + uint64(r.Int63n(int64(med/2)))
			}
			if first && r.Intn(3) > 0 {
				goal = 60000 + uint64(r.Intn(150000))
			}
			if lim := sim.MaxBlockSize(uint64(index(w))); goal > lim {
				goal = lim
			}
			var x *sim.Candidate
			if r.Intn(4) == 0 {
				x = next(t, w, txsFor(w, 3)...)
			} else if x = sized(w, goal); x == nil {
				t.Count("size is not reached", 1)
				continue
			}
			v := w.M.Judge(x.B, x.Raw, sim.Now())
			if v.Reward == nil || !v.OK() {
				continue
			}
			t.SetDesc("index %d size %d median %d coins %d fee %v", index(w), v.Size, med, w.M.Top().Coins, v.Fee)
			base := new(big.Int).SetUint64(sim.BaseReward(w.M.Top().Coins))
			for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Sub(base, v.Reward), new(big.Int).Sub(new(big.Int).Add(base, v.Fee), v.Reward), new(big.Int).Neg(v.Fee)} {
				y := x.Clone()
				n := new(big.Int).Add(v.Reward, d)
				if d.Sign() == 0 || !n.IsUint64() || n.Sign() == 0 {
					continue
				}
				y.SetReward(n.Uint64())
				w.Sign(y)
				submit(t, w, y, "block with a wrong reward")
			}
			mustAdd(t, w, x, "block")
			total.Add(total, v.Change)
			if first {
				t.Count("blocks after the genesis", 1)
			}
			if v.Size > med {
				t.Count("penalized blocks", 1)
			}
			t.Distinct(w.M.Top().Hash[:])
		}
		if haveInfo {
			want := total.Add(total, new(big.Int).SetUint64(start))
			if i := infoAt(w.Store, w.M.Top().Index); i == nil || want.IsUint64() && i.Coins != want.Uint64() {
				t.Failf("recorded coins are %+v, want %v", i, want)
			}
		}
		auditFull(t, w, "end")
	})

	c.Require("rewards", 10000)
	c.Require("penalized rewards", 1000)
	c.Require("oversized blocks", 1000)
	c.Require("tails of the emission", 2)
	c.Require("penalized blocks", 20)
	c.Require("blocks after the genesis", 20)
	c.Require("only reward", 100)
}
