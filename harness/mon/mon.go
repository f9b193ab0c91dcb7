// Package mon is the monitoring framework shared by all the checks: it runs workloads of deterministic cases against
// the real code, collects what the oracles observed, and turns panics, hangs and crashes into verdicts.
package mon

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	ExitOK           = 0
	ExitViolation    = 1
	ExitInfra        = 2
	ExitInconclusive = 3
	ExitHang         = 70
	// ExitChildInfra is apart from 2, the code of a crashed Go process.
	ExitChildInfra = 74
)

// Violation is a witness of a broken property.
type Violation struct {
	Property string `json:"property"`
	Workload string `json:"workload"`
	Case     int    `json:"case"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Finding  string `json:"finding,omitempty"`
	Deadlock bool   `json:"deadlock,omitempty"`
}

// Ctx is a state of one check run.
type Ctx struct {
	Prop string
	Tier string
	Seed uint64

	rule        string
	assumptions []string

	mu         sync.Mutex
	counters   map[string]int64
	distinct   map[uint64]struct{}
	samples    []interface{}
	sampleCnt  map[string]int
	violations []Violation
	findings   map[string]string
	known      map[string]string
	required   map[string]int64
	workloads  map[string]int64
	evals      int64

	replayW string
	replayI int

	running sync.Map // *T -> struct{}
	start   time.Time
	paused  int32
	curFile *os.File
}

// T is one case of a workload.
type T struct {
	C    *Ctx
	Name string
	I    int
	Rng  *rand.Rand

	started int64
	limit   time.Duration
	failed  atomic.Bool
	desc    atomic.Value
}

func newCtx(prop, tier string, seed uint64) *Ctx {
	c := &Ctx{
		Prop: prop, Tier: tier, Seed: seed,
		counters:  map[string]int64{},
		distinct:  map[uint64]struct{}{},
		sampleCnt: map[string]int{},
		findings:  map[string]string{},
		known:     map[string]string{},
		required:  map[string]int64{},
		workloads: map[string]int64{},
		replayI:   -1,
		start:     time.Now(),
	}

	if r := os.Getenv("VERIF_REPLAY"); r != "" {
		i := strings.LastIndex(r, ":")
		c.replayW = r[:i]
		c.replayI, _ = strconv.Atoi(r[i+1:])
	}

	c.loadKnown()

	if p := os.Getenv("VERIF_CURRENT"); p != "" {
		c.curFile, _ = os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	}

	return c
}

// loadKnown reads the known findings, lines "finding: property=<id> sig=<signature> <text>".
func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return
	}

	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		f := strings.Fields(line)
		if len(f) < 3 || f[1] != "property="+c.Prop || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		c.known[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
	}
}

// VerifDir is the directory of the framework.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Quick tells if it is the quick tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// N picks number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

// Rule describes how cases are made and what makes one non trivial.
func (c *Ctx) Rule(s string) { c.rule = s }

// Assume records an assumption for the evidence file.
func (c *Ctx) Assume(s string) { c.assumptions = append(c.assumptions, s) }

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Require makes the run inconclusive when fewer events than min were observed.
func (c *Ctx) Require(name string, min int64) {
	c.mu.Lock()
	c.required[name] = min
	c.mu.Unlock()
}

func rngFor(seed uint64, name string, i int) *rand.Rand {
	h := sha256.New()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], seed)
	binary.LittleEndian.PutUint64(b[8:], uint64(i))
	h.Write(b[:])
	h.Write([]byte(name))
	s := h.Sum(nil)
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(s[:8]))))
}

// DefaultLimit is how long one case may run before the watchdog calls it a hang. Usual cases take milliseconds.
var DefaultLimit = 150 * time.Second

// Seq runs n cases of a workload one after another.
func (c *Ctx) Seq(name string, n int, f func(t *T)) { c.run(name, n, 1, DefaultLimit, f) }

// SeqL is Seq with own time limit of a case.
func (c *Ctx) SeqL(name string, n int, limit time.Duration, f func(t *T)) {
	c.run(name, n, 1, limit, f)
}

// Par runs n cases of a workload on all the cores.
func (c *Ctx) Par(name string, n int, f func(t *T)) {
	c.run(name, n, runtime.NumCPU(), DefaultLimit, f)
}

// ParL is Par with number of workers and own time limit of a case.
func (c *Ctx) ParL(name string, n, workers int, limit time.Duration, f func(t *T)) {
	c.run(name, n, workers, limit, f)
}

func (c *Ctx) run(name string, n, workers int, limit time.Duration, f func(t *T)) {
	if c.replayI >= 0 && c.replayW != name {
		return
	}

	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.replayI >= 0 && i != c.replayI {
					continue
				}
				for atomic.LoadInt32(&c.paused) != 0 {
					time.Sleep(time.Second)
				}
				if c.tooMany() {
					return
				}
				c.one(name, i, limit, f)
			}
		}()
	}
	wg.Wait()
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) >= 25
}

func (c *Ctx) one(name string, i int, limit time.Duration, f func(t *T)) {
	if k, err := strconv.Atoi(os.Getenv("VERIF_SLOW")); err == nil {
		limit *= time.Duration(k)
	}
	t := &T{C: c, Name: name, I: i, Rng: rngFor(c.Seed, name, i), started: time.Now().UnixNano(), limit: limit}
	c.running.Store(t, struct{}{})
	if c.curFile != nil {
		var b [96]byte
		copy(b[:], fmt.Sprintf("%s:%d", name, i))
		_, _ = c.curFile.WriteAt(b[:], 0)
	}

	defer func() {
		c.running.Delete(t)
		if r := recover(); r != nil {
			if r == stopCase {
				return
			}
			t.Failf("panic: %v\ncase: %s\n%s", r, t.Desc(), debug.Stack())
		}
	}()

	atomic.AddInt64(&c.evals, 1)
	c.mu.Lock()
	c.workloads[name]++
	c.mu.Unlock()
	f(t)
	if d := t.Desc(); d != "" {
		t.Sample(clip(d, 400))
	}
}

var stopCase = new(int)

// Stop ends the case.
func (t *T) Stop() { panic(stopCase) }

// SetDesc describes the case for reports of panics and hangs.
func (t *T) SetDesc(format string, a ...interface{}) { t.desc.Store(fmt.Sprintf(format, a...)) }

// Desc is a description of the case.
func (t *T) Desc() string {
	if s, ok := t.desc.Load().(string); ok {
		return s
	}
	return ""
}

// Failf records a violation.
func (t *T) Failf(format string, a ...interface{}) {
	t.failed.Store(true)
	t.C.violate(Violation{Workload: t.Name, Case: t.I, Message: clip(fmt.Sprintf(format, a...), 6000)})
}

// Failed tells if the case has a violation.
func (t *T) Failed() bool { return t.failed.Load() }

// Finding records failure with a signature. It is not a violation when the signature is listed in the known findings.
func (t *T) Finding(sig, format string, a ...interface{}) {
	c := t.C
	c.mu.Lock()
	text, ok := c.known[sig]
	if ok {
		c.findings[sig] = text
	}
	c.mu.Unlock()
	if !ok {
		t.failed.Store(true)
		c.violate(Violation{Workload: t.Name, Case: t.I, Finding: sig, Message: clip(fmt.Sprintf(format, a...), 6000)})
	}
}

func (c *Ctx) violate(v Violation) {
	v.Property, v.Seed, v.Tier = c.Prop, c.Seed, c.Tier
	c.mu.Lock()
	c.violations = append(c.violations, v)
	c.mu.Unlock()
}

// Violatef records a violation that belongs to no case.
func (c *Ctx) Violatef(workload, format string, a ...interface{}) {
	c.violate(Violation{Workload: workload, Case: -1, Message: clip(fmt.Sprintf(format, a...), 6000)})
}

// Count adds to a named counter of observed events.
func (t *T) Count(name string, n int64) { t.C.Count(name, n) }

// Distinct records the non trivial case by its content.
func (t *T) Distinct(parts ...interface{}) {
	h := sha256.New()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xfe})
	}
	s := h.Sum(nil)
	t.C.mu.Lock()
	t.C.distinct[binary.LittleEndian.Uint64(s)] = struct{}{}
	t.C.mu.Unlock()
}

// Sample keeps first few cases of each workload for the evidence.
func (t *T) Sample(v interface{}) {
	t.C.mu.Lock()
	if t.C.sampleCnt[t.Name] < 2 {
		t.C.sampleCnt[t.Name]++
		t.C.samples = append(t.C.samples, map[string]interface{}{"workload": t.Name, "case": t.I, "value": v})
	}
	t.C.mu.Unlock()
}

// Hex is a short hex form of bytes.
func Hex(b []byte) string {
	if len(b) > 400 {
		return hex.EncodeToString(b[:400]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

// Caught runs f and returns value of the panic, if any.
func Caught(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// watchdog ends the process when some case runs for too long.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		c.running.Range(func(k, _ interface{}) bool {
			t := k.(*T)
			if time.Duration(now-t.started) > t.limit {
				atomic.StoreInt32(&c.paused, 1)
				dead := deadlocked(20 * time.Second)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if p := os.Getenv("VERIF_HANG"); p != "" {
					b, _ := json.Marshal(Violation{Property: c.Prop, Workload: t.Name, Case: t.I, Seed: c.Seed, Tier: c.Tier, Deadlock: dead,
						Message: clip("case did not finish in "+t.limit.String()+" case: "+t.Desc()+"\n"+string(buf), 60000)})
					_ = os.WriteFile(p, b, 0644)
				}
				os.Exit(ExitHang)
			}
			return true
		})
	}
}

type childResult struct {
	Violations []Violation       `json:"violations"`
	Findings   map[string]string `json:"findings"`
	Missing    []string          `json:"missing"`
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()

	res := childResult{Violations: c.violations, Findings: c.findings}
	if c.replayI < 0 {
		for name, min := range c.required {
			if c.counters[name] < min {
				res.Missing = append(res.Missing, fmt.Sprintf("%s: observed %d, required %d", name, c.counters[name], min))
			}
		}
	}
	sort.Strings(res.Missing)

	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
		"observed_events":     c.counters,
		"workload_cases":      c.workloads,
	}
	keys := make([]string, 0, len(c.findings))
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 0 {
		cov["known_findings_observed"] = keys
	}

	ev := map[string]interface{}{
		"property":    c.Prop,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": c.assumptions,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.violations),
	}
	if c.replayI < 0 {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			dir := filepath.Join(VerifDir(), "evidence")
			_ = os.MkdirAll(dir, 0755)
			err = os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "can't write evidence:", err)
			return ExitChildInfra
		}
	}

	b, _ := json.Marshal(res)
	if err := os.WriteFile(os.Getenv("VERIF_RESULT"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "can't write result:", err)
		return ExitChildInfra
	}

	switch {
	case len(c.violations) > 0:
		return ExitViolation
	case len(res.Missing) > 0:
		return ExitInconclusive
	}
	return ExitOK
}

// Clamp is the value moved into the range.
func Clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}
