// Package sim is a reference model of the Karbo consensus rules with generators of chains, blocks and transactions.
package sim

import (
	"math"
	"math/big"
	"math/bits"
	"sort"
)

const (
	Target      = 240
	MinDiff     = 100000
	Supply      = 10000000000000000000
	UnlockDelta = 10
)

// Upgrades are the last heights with the rules before the upgrade (first ones of S2 and S3 steps).
const (
	V2   = 60000
	V3   = 216000
	V3s1 = 216394
	V4   = 266000
	V4s1 = 300000
	V4s2 = 500000
	V4s3 = 667000
	V5   = 700000
)

// Version of the block at the index.
func Version(i uint32) byte {
	switch {
	case i <= V2:
		return 1
	case i <= V3:
		return 2
	case i <= V4:
		return 3
	case i <= V5:
		return 4
	}
	return 5
}

// MaxBlockSize at the index.
func MaxBlockSize(i uint64) uint64 {
	n := new(big.Int).Mul(new(big.Int).SetUint64(i), big.NewInt(100*1024))
	n.Div(n, big.NewInt(365*24*3600/Target))
	return 1000000 + n.Uint64()
}

// MaxTxSize at the index.
func MaxTxSize(i uint32) uint64 {
	if i <= V4 {
		return math.MaxUint64
	}
	return 249400
}

func FutureLimit(v byte) uint64 {
	if v < 4 {
		return 1680
	}
	return 720
}

func TimeWindow(v byte) int {
	if v < 4 {
		return 60
	}
	return 11
}

func FullZone(v byte) uint64 {
	if v == 1 {
		return 100000
	}
	return 1000000
}

// DiffWindow is how many blocks take part in the calculation of difficulty.
func DiffWindow(v byte) int { return map[byte]int{1: 375, 2: 17, 3: 61, 4: 61, 5: 121}[v] }

// MinFee is the fee that pays for a usual transaction.
func MinFee(i uint32) uint64 {
	switch {
	case i <= V3s1:
		return 100000000
	case i <= V4:
		return 100000000000
	}
	return 10000000000
}

// FeeFloor is the least fee of an accepted transaction.
func FeeFloor(i uint32) uint64 {
	if i > V4 && i < V4s3 {
		return 8000000000
	}
	return MinFee(i)
}

// ExtraFee is the least fee of an accepted transaction that depends on its extra, 0 when it is not in force.
func ExtraFee(i uint32, extra uint64) uint64 {
	f := MinFee(i)
	if extra > 100 {
		f += f / 100 * (extra - 100)
	}
	switch {
	case i <= V4s2:
		return 0
	case i < V4s3:
		return f - f*20/100
	}
	return f
}

// MixinAllowed tells if the size of the biggest ring is allowed.
func MixinAllowed(i uint32, n int) bool {
	if i > V3s1 && n > 20 {
		return false
	}
	return i <= V4 || n >= 1
}

// Pretty amounts have one digit that is not zero.
func Pretty(a uint64) bool {
	for a >= 10 && a%10 == 0 {
		a /= 10
	}
	return a > 0 && a < 10
}

// Digits splits the amount to its decimal digits, small ones that sum up to dust stay together.
func Digits(amount, dust uint64) (r []uint64) {
	var acc uint64
	for p := uint64(1); amount > 0; p *= 10 {
		d := amount % 10 * p
		amount /= 10
		if d == 0 {
			continue
		}
		if acc+d <= dust {
			acc += d
		} else {
			r = append(r, d)
		}
	}
	if acc > 0 {
		r = append(r, acc)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

// Fusion tells if the transaction without fee is a fusion.
func Fusion(i uint32, size uint64, in, out []uint64) bool {
	if i <= V3 && size > 300000 {
		return false
	}
	if len(in) < 12 || len(in) < 4*len(out) {
		return false
	}
	var sum, dust uint64
	if i < V4 {
		dust = 100000000
	}
	for _, a := range in {
		if a < dust {
			return false
		}
		sum += a
	}
	want := Digits(sum, dust)
	if len(want) != len(out) {
		return false
	}
	for j := range out {
		if out[j] != want[j] {
			return false
		}
	}
	return true
}

func u(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// Median of the values, 0 for none.
func Median(v []uint64) uint64 {
	if len(v) == 0 {
		return 0
	}
	s := append([]uint64{}, v...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return (s[n/2-1] + s[n/2]) / 2
}

// BaseReward for the generated coins.
func BaseReward(coins uint64) uint64 {
	if coins < Supply {
		if b := (Supply - coins) >> 18; b >= 1000000000000 && coins+1000000000000 < Supply {
			return b
		}
	}
	return coins / 100 * 2 / (365 * 24 * 3600 / Target)
}

// Reward of the block: what the miner takes and change of the supply, that may be negative.
func Reward(v byte, median, size, coins, fee uint64) (reward, change *big.Int, ok bool) {
	if z := FullZone(v); median < z {
		median = z
	}
	if size > 2*median {
		return nil, nil, false
	}
	pen := func(a uint64) *big.Int {
		if size <= median {
			return u(a)
		}
		m, s := u(median), u(size)
		n := new(big.Int).Sub(new(big.Int).Lsh(m, 1), s)
		n.Mul(n, s).Mul(n, u(a))
		// twice rounded down is the same as once
		return n.Div(n, new(big.Int).Mul(m, m))
	}
	b, f := pen(BaseReward(coins)), pen(fee)
	reward = new(big.Int).Add(b, f)
	return reward, new(big.Int).Sub(reward, u(fee)), true
}

func clamp(lo, v, hi *big.Int) *big.Int {
	if v.Cmp(lo) < 0 {
		return lo
	}
	if v.Cmp(hi) > 0 {
		return hi
	}
	return v
}

func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// Diff is a reference difficulty. exact tells that the value is the only right one, otherwise rounding of the real
// numbers makes it a bit different. ok is false when there is no difficulty, fits when the numbers of the network
// algorithm fit to the machine types. height is the index of the last block.
type Diff struct {
	V               *big.Int
	Exact, OK, Fits bool
}

// Difficulty of the block that follows the history, the last entries of what is cut to the window.
func Difficulty(height uint32, v byte, testnet bool, ts, cd []uint64) Diff {
	n := len(ts)
	if n != len(cd) {
		return Diff{Fits: true}
	}
	floor := func(d *big.Int) *big.Int {
		if !testnet && d.Cmp(big.NewInt(MinDiff)) < 0 {
			return big.NewInt(MinDiff)
		}
		return d
	}
	span := func(a, b int) *big.Int { return new(big.Int).Sub(u(cd[b]), u(cd[a])) }
	lim := new(big.Int).Lsh(big.NewInt(1), 63)
	fits := func(x *big.Int) bool { return new(big.Int).Abs(x).Cmp(lim) < 0 }
	T := int64(Target)
	switch v {
	case 1, 2:
		w, cut := 360, 60
		if v == 2 {
			w, cut = 17, 0
		}
		if n > w {
			ts, cd, n = ts[:w], cd[:w], w
		}
		if n <= 1 {
			return Diff{big.NewInt(1), true, true, true}
		}
		s := append([]uint64{}, ts...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		b, e := 0, n
		if keep := w - 2*cut; n > keep {
			b = (n - keep + 1) / 2
			e = b + keep
		}
		t := s[e-1] - s[b]
		if t == 0 {
			t = 1
		}
		if cd[e-1] <= cd[b] {
			return Diff{Fits: cd[e-1] == cd[b]}
		}
		x := span(b, e-1)
		x.Mul(x, big.NewInt(T))
		if v == 1 {
			x.Add(x, u(t-1))
			if x.BitLen() > 64 {
				return Diff{big.NewInt(0), true, true, true}
			}
			return Diff{x.Div(x, u(t)), true, true, true}
		}
		if x.BitLen() > 64 {
			return Diff{big.NewInt(0), true, true, true}
		}
		return Diff{floor(x.Div(x, u(t))), true, true, true}
	case 3:
		if n < 4 {
			return Diff{big.NewInt(1), true, true, true}
		}
		N := 60
		if n < N+1 {
			N = n - 1
		}
		ts, cd = ts[n-N-1:], cd[n-N-1:]
		var sum int64
		inv := new(big.Rat)
		f := true
		for i := 1; i <= N; i++ {
			st := int64(ts[i] - ts[i-1])
			if ts[i] < ts[i-1] && st > 0 || ts[i] > ts[i-1] && st < 0 {
				f = false
			}
			if st > 7*T {
				st = 7 * T
			}
			if st < -6*T {
				st = -6 * T
			}
			sum += st * int64(i)
			d := span(i-1, i)
			if d.Sign() <= 0 || !fits(d) {
				return Diff{Fits: false}
			}
			inv.Add(inv, new(big.Rat).SetFrac(big.NewInt(1), d))
		}
		k := int64(N * (N + 1) / 2)
		lwma := big.NewRat(sum, k)
		// less than T/20 after rounding to the nearest
		f = f && sum*2 != (T/20)*2*k-k
		if sum*2 < (T/20)*2*k-k {
			lwma = big.NewRat(T, 20)
		}
		x := new(big.Rat).SetFrac64(int64(N)*998, 1000)
		x.Mul(x, big.NewRat(T, 1)).Quo(x, inv).Quo(x, lwma)
		q := new(big.Int).Div(x.Num(), x.Denom())
		if q.BitLen() > 63 {
			f = false
		}
		return Diff{floor(q), false, true, f}
	case 4:
		if n != 61 {
			return Diff{Fits: true}
		}
		var L, last3 int64
		top := ts[0]
		f := true
		for i := 1; i < 61; i++ {
			var st int64
			if ts[i] > 1<<62 || ts[i-1] > 1<<62 {
				f = false
			}
			if height < V4s1 {
				st = int64(ts[i] - ts[i-1])
				if st < -6*T {
					st = -6 * T
				}
			} else {
				prev := top
				if ts[i] > top {
					top = ts[i]
				} else {
					top++
				}
				st = int64(top - prev)
			}
			st = mini(st, 6*T)
			L += st * int64(i)
			if i > 57 {
				last3 += st
			}
		}
		if L == 0 {
			L = 1
		}
		x := span(0, 60)
		x.Mul(x, big.NewInt(T*61))
		if !fits(x) || cd[60] < cd[0] {
			f = false
		}
		x.Quo(x, big.NewInt(2*L))
		x.Mul(x, big.NewInt(99))
		f = f && fits(x)
		x.Quo(x, big.NewInt(100))
		p := span(59, 60)
		f = f && p.Sign() >= 0
		part := func(c int64) *big.Int {
			y := new(big.Int).Mul(p, big.NewInt(c))
			f = f && fits(y)
			return y.Quo(y, big.NewInt(100))
		}
		x = clamp(part(67), x, part(150))
		if last3 < 8*T/10 {
			x = part(110)
		}
		return Diff{floor(x), true, true, f}
	}
	// the first block of the version
	if height == V5 && n > 0 {
		return Diff{u(cd[0] / V5 / 1000), true, true, true}
	}
	if height > V5 && height < V5+120 {
		off := int(120 - (height - V5))
		if off > n {
			return Diff{Fits: true}
		}
		ts, cd = ts[off:], cd[off:]
		n = len(ts)
	}
	if n < 2 {
		return Diff{Fits: true}
	}
	N := int64(n - 1)
	if N > 120 {
		N = 120
	}
	f := true
	prev := int64(ts[0]) - T
	var L int64
	for i := int64(1); i <= N; i++ {
		if ts[i] > 1<<62 || ts[0] > 1<<62 {
			f = false
		}
		t := int64(ts[i])
		if t <= prev {
			t = prev + 1
		}
		L += i * mini(6*T, t-prev)
		prev = t
	}
	if m := N * N * T / 20; L < m {
		L = m
	}
	if cd[N] < cd[0] {
		f = false
	}
	avg := span(0, int(N))
	f = f && fits(avg)
	avg.Quo(avg, big.NewInt(N))
	k := big.NewInt(N * (N + 1) * T * 99)
	x := new(big.Int)
	if avg.Cmp(big.NewInt(2000000*N*N*T)) > 0 {
		x.Quo(avg, big.NewInt(200*L))
		x.Mul(x, k)
	} else {
		x.Mul(avg, k)
		f = f && fits(x)
		x.Quo(x, big.NewInt(200*L))
	}
	f = f && fits(x)
	for i := int64(1000000000); i > 1; i /= 10 {
		if b := big.NewInt(i); x.Cmp(big.NewInt(i*100)) > 0 {
			x.Add(x, big.NewInt(i/2)).Quo(x, b).Mul(x, b)
			break
		}
	}
	return Diff{floor(x), true, true, f}
}

// MulHi is used by generators to keep numbers in their range.
func MulHi(a, b uint64) uint64 { h, _ := bits.Mul64(a, b); return h }
