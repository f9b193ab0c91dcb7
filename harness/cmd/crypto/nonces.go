package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/mon"
	"verifharness/ref"
)

var fixedSecret = ref.LE32(ref.MulL(ref.FromLE(bytes.Repeat([]byte{0x5a}, 32)), ref.FromLE([]byte{7})))

// drawn is a random value that a call used, found with the secret key.
type drawn struct {
	what string
	v    [32]byte
}

// nonceOf finds the nonce of the signature.
func nonceOf(c, r crypto.EllipticCurveScalar, sec [32]byte) [32]byte {
	return ref.LE32(ref.AddL(ref.FromLE(r[:]), ref.MulL(ref.FromLE(c[:]), ref.FromLE(sec[:]))))
}

// draws are calls that need random values.
func draws(h crypto.Hash) []func() ([]drawn, error) {
	sk := crypto.SecretKey(fixedSecret)
	pub := crypto.PublicKey(ref.Base.Mul(ref.FromLE(fixedSecret[:])).Bytes())
	other := crypto.PublicKey(ref.Base.Mul(ref.FromLE([]byte{11, 3})).Bytes())
	return []func() ([]drawn, error){
		func() ([]drawn, error) {
			s, err := h.Sign(&sk)
			if err != nil {
				return nil, err
			}
			return []drawn{{"nonce of a signature", nonceOf(s.C, s.R, fixedSecret)}}, nil
		},
		func() ([]drawn, error) {
			im, err := crypto.GenerateKeyImage(&pub, &sk)
			if err != nil {
				return nil, err
			}
			pubs := []crypto.PublicKey{other, pub, other}
			s, err := crypto.GenerateRingSignature(&h, im, &pubs, &sk, 1)
			if err != nil {
				return nil, err
			}
			return []drawn{{"nonce of a ring", nonceOf(s[1].C, s[1].R, fixedSecret)}, {"c of a decoy", s[0].C}, {"r of a decoy", s[0].R}, {"c of a decoy", s[2].C}, {"r of a decoy", s[2].R}}, nil
		},
		func() ([]drawn, error) { return []drawn{{"random scalar", crypto.RandomScalar()}}, nil },
		func() ([]drawn, error) {
			k, err := crypto.GenerateKey()
			return []drawn{{"generated key", k}}, err
		},
	}
}

// source is a source of randomness that gives few bytes at once or fails.
type source struct {
	mu    sync.Mutex
	real  io.Reader
	fail  string
	calls int
	rng   *mrand.Rand
}

func (s *source) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	if len(b) == 0 {
		return 0, nil
	}
	switch s.fail {
	case "always":
		return 0, errors.New("no randomness")
	case "in the middle":
		n, _ := s.real.Read(b[:len(b)/2])
		return n, errors.New("no randomness")
	}
	return s.real.Read(b[:1+s.rng.Intn(len(b))])
}

// nonceProcess is another process that makes signatures and prints what it has drawn.
func nonceProcess(mode string) {
	src := &source{real: rand.Reader, rng: mrand.New(mrand.NewSource(1))}
	switch mode {
	case "plain":
	case "short":
		rand.Reader = src
	default:
		src.fail = mode
		rand.Reader = src
	}
	for i := 0; i < 30; i++ {
		fs := draws(crypto.Hash{byte(i)})
		for j := range fs {
			f := fs[len(fs)-1-j] // those that may try again for ever are the last
			func() {
				defer func() {
					if p := recover(); p != nil {
						fmt.Println("refused")
					}
				}()
				before := src.calls
				ds, err := f()
				if err != nil {
					fmt.Println("refused")
					return
				}
				asked := src.calls > before
				for _, d := range ds {
					fmt.Printf("%v;%s;%x\n", asked, d.what, d.v)
				}
			}()
		}
	}
	os.Exit(0)
}

// nonces watches random values of concurrent calls, of different processes, and with a source that gives few bytes or fails.
func nonces(c *mon.Ctx) {
	c.Seq("at once", c.N(6, 60), func(t *mon.T) {
		h := crypto.Hash{byte(t.I)}
		var mu sync.Mutex
		seen := map[[32]byte]string{}
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						t.Failf("panic: %v", p)
					}
				}()
				for i := 0; i < 12; i++ {
					for _, f := range draws(h) {
						ds, err := f()
						if err != nil {
							t.Failf("%v", err)
							return
						}
						mu.Lock()
						for _, d := range ds {
							if w, ok := seen[d.v]; ok {
								t.Failf("%s and %s are the same %x", w, d.what, d.v)
							}
							seen[d.v] = d.what
							t.Count("nonces of concurrent calls", 1)
						}
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		t.Distinct("at once", t.I)
	})
	c.Require("nonces of concurrent calls", 5000)

	self, err := os.Executable()
	if err != nil {
		return
	}
	run := func(mode string) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, self)
		cmd.Env = append(os.Environ(), "VERIF_NONCES="+mode)
		out, err := cmd.Output()
		return string(out), err
	}
	c.Seq("processes", c.N(3, 20), func(t *mon.T) {
		seen := map[string]string{}
		for i, mode := range []string{"plain", "plain", "short", "short"} {
			out, err := run(mode)
			if err != nil {
				t.Failf("process %d (%s): %v", i, mode, err)
				return
			}
			var st bitStats
			for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
				f := strings.Split(l, ";")
				if len(f) != 3 {
					t.Failf("process %d (%s): %s", i, mode, l)
					return
				}
				if w, ok := seen[f[2]]; ok {
					t.Failf("%s of process %d (%s) is the same as %s: %s", f[1], i, mode, w, f[2])
					return
				}
				seen[f[2]] = fmt.Sprintf("%s of process %d (%s)", f[1], i, mode)
				var v [32]byte
				b, _ := hex.DecodeString(f[2])
				copy(v[:], b)
				st.add(v)
				t.Count("nonces of other processes", 1)
			}
			if s := st.stuck(); len(s) > 0 {
				t.Failf("random values of process %d (%s) are biased, bits %v over %d", i, mode, s, st.n)
			}
		}
		t.Distinct("processes", t.I)
	})
	c.Require("nonces of other processes", 500)

	c.Seq("no randomness", 2, func(t *mon.T) {
		mode := []string{"always", "in the middle"}[t.I]
		out, _ := run(mode) // it may end the process as well, or try for ever
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			if strings.HasPrefix(l, "true;") {
				t.Failf("source of randomness failed (%s), but there is %s", mode, l)
				return
			}
		}
		t.Count("failures of the source", 1)
		t.Distinct("no randomness", mode)
	})
}
