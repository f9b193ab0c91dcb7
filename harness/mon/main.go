package mon

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Check is a body of a check of one property.
type Check func(c *Ctx)

// Main is an entry point of the group binary: the parent process supervises the child that runs the workloads.
func Main(checks map[string]Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: <binary> <property> [replay file]")
		os.Exit(ExitInfra)
	}

	prop := os.Args[1]
	check, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(ExitInfra)
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}

	if os.Getenv("VERIF_CHILD") != "" {
		if gb := os.Getenv("VERIF_AS_GB"); gb != "" {
			n, _ := strconv.ParseUint(gb, 10, 64)
			_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n << 30, Max: n << 30})
		}
		c := newCtx(prop, tier, seed)
		go c.watchdog()
		EndWithParent()
		if p := os.Getenv("VERIF_PROFILE"); p != "" {
			f, _ := os.Create(p)
			_ = pprof.StartCPUProfile(f)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Violatef("setup", "panic outside of the cases: %v\n%s", r, debug.Stack())
				}
			}()
			check(c)
		}()
		pprof.StopCPUProfile()
		os.Exit(c.finish())
	}

	replay := ""
	if len(os.Args) > 2 {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(ExitInfra)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(ExitInfra)
		}
		seed, tier = v.Seed, v.Tier
		if v.Case >= 0 {
			replay = fmt.Sprintf("%s:%d", v.Workload, v.Case)
		}
	}

	os.Exit(supervise(prop, tier, seed, replay))
}

type childRun struct {
	code    int
	stderr  string
	current string
	timeout bool
	races   []string
	hang    *Violation
	result  *childResult
}

// EndWithParent has the process end when the one that started it is gone.
func EndWithParent() {
	parent := os.Getppid()
	go func() {
		for os.Getppid() == parent {
			time.Sleep(time.Second)
		}
		os.Exit(4)
	}()
}

func runChild(dir, prop, tier string, seed uint64, replay string, limit time.Duration) (*childRun, error) {
	_ = os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return nil, err
	}
	defer errFile.Close()

	self, err := os.Executable()
	if err != nil {
		return nil, err
	}

	cmd := exec.Command(self, prop)
	cmd.Env = append(os.Environ(),
		"VERIF_CHILD=1",
		"VERIF_TIER="+tier,
		fmt.Sprintf("VERIF_SEED=%d", seed),
		"VERIF_REPLAY="+replay,
		"VERIF_RESULT="+filepath.Join(dir, "result"),
		"VERIF_HANG="+filepath.Join(dir, "hang"),
		"VERIF_CURRENT="+filepath.Join(dir, "current"),
		"GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, "race"),
		"GOTRACEBACK=all",
	)
	cmd.Stdout = errFile
	cmd.Stderr = errFile
	cmd.Dir = dir
	if err := cmd.Start(); err != nil {
		return nil, err
	}

	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	r := &childRun{}
	select {
	case <-done:
	case <-time.After(limit):
		r.timeout = true
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			_ = cmd.Process.Kill()
			<-done
		}
	}
	r.code = cmd.ProcessState.ExitCode()

	if b, err := os.ReadFile(filepath.Join(dir, "stderr")); err == nil {
		r.stderr = string(b)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "current")); err == nil {
		r.current = strings.TrimRight(string(b), "\x00")
	}
	if b, err := os.ReadFile(filepath.Join(dir, "hang")); err == nil {
		r.hang = &Violation{}
		_ = json.Unmarshal(b, r.hang)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
		r.result = &childResult{}
		if json.Unmarshal(b, r.result) != nil {
			r.result = nil
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "WARNING: DATA RACE") {
				r.races = append(r.races, rep)
			}
		}
	}

	return r, nil
}

func supervise(prop, tier string, seed uint64, replay string) int {
	dir := filepath.Join(VerifDir(), "replays", prop)
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ExitInfra
	}
	defer os.RemoveAll(scratch)

	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 850 * time.Second
	}

	var violations []Violation
	begun := time.Now()
	r, err := runChild(filepath.Join(scratch, "run"), prop, tier, seed, replay, limit)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ExitInfra
	}

	// A case that hangs is run again alone: a loaded machine must not give a verdict.
	confirm := func() (*childRun, error) {
		return runChild(filepath.Join(scratch, "again"), prop, tier, seed, fmt.Sprintf("%s:%d", r.hang.Workload, r.hang.Case), limit)
	}
	hangs := func(r *childRun) bool { return r.code == ExitHang && r.hang != nil }
	bad := func(r *childRun) bool {
		return hangs(r) || r.result != nil && len(r.result.Violations) > 0
	}
	var again *childRun
	if hangs(r) && !r.hang.Deadlock {
		if again, err = confirm(); err == nil && !bad(again) && time.Since(begun) < 400*time.Second {
			fmt.Fprintf(os.Stderr, "case %s:%d was too slow once, everything is run again with more time\n", r.hang.Workload, r.hang.Case)
			_ = os.Setenv("VERIF_SLOW", "4")
			again = nil
			if r, err = runChild(filepath.Join(scratch, "run"), prop, tier, seed, replay, 860*time.Second-time.Since(begun)); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return ExitInfra
			}
		}
	}

	mk := func(msg string) Violation {
		v := Violation{Property: prop, Seed: seed, Tier: tier, Case: -1, Workload: "process", Message: msg}
		if i := strings.LastIndex(r.current, ":"); i > 0 {
			v.Workload = r.current[:i]
			v.Case, _ = strconv.Atoi(r.current[i+1:])
		}
		return v
	}

	if r.result != nil {
		violations = append(violations, r.result.Violations...)
	}
	for i, rep := range dedupeRaces(r.races) {
		if i < 5 {
			v := mk("data race:\n" + rep)
			v.Case = -1
			violations = append(violations, v)
		}
	}

	crashed := r.result == nil && !r.timeout && r.code != ExitHang && r.code != ExitChildInfra
	switch {
	case r.code == ExitHang && r.hang != nil:
		if r.hang.Deadlock {
			r.hang.Message = "deadlock: everything inside of the code waits for its locks\n" + r.hang.Message
			violations = append(violations, *r.hang)
			break
		}
		id := fmt.Sprintf("%s:%d", r.hang.Workload, r.hang.Case)
		if again == nil {
			again, err = confirm()
		}
		if err == nil && again.code == ExitHang {
			violations = append(violations, *r.hang)
		} else if err == nil && again.result != nil && len(again.result.Violations) > 0 {
			violations = append(violations, again.result.Violations...)
		} else {
			fmt.Fprintln(os.Stderr, "inconclusive: case", id, "was too slow once")
			if len(violations) == 0 {
				return ExitInconclusive
			}
		}
	case crashed && strings.Contains(r.stderr, "signal: killed"), crashed && r.code == -1 && !looksCrashed(r.stderr):
		fmt.Fprintln(os.Stderr, "child was killed\n"+tail(r.stderr, 3000))
		if len(violations) == 0 {
			return ExitInfra
		}
	case crashed:
		violations = append(violations, mk("process crashed, exit code "+strconv.Itoa(r.code)+"\n"+head(r.stderr, 5000)))
	case r.timeout:
		fmt.Fprintln(os.Stderr, "inconclusive: run took too long, last case", r.current, "\n"+tail(r.stderr, 3000))
		if len(violations) == 0 {
			return ExitInconclusive
		}
	case r.code == ExitChildInfra:
		fmt.Fprintln(os.Stderr, tail(r.stderr, 3000))
		if len(violations) == 0 {
			return ExitInfra
		}
	}

	if r.result != nil {
		keys := make([]string, 0)
		for k := range r.result.Findings {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, r.result.Findings[k])
		}
	}

	if len(violations) > 0 {
		_ = os.MkdirAll(dir, 0755)
		for i, v := range violations {
			p := filepath.Join(dir, fmt.Sprintf("violation-%d.json", i))
			b, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(p, b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			if i < 3 {
				fmt.Printf("# %s case %d: %s\n", v.Workload, v.Case, head(v.Message, 1500))
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			}
		}
		fmt.Printf("# %d violations\n", len(violations))
		return ExitViolation
	}

	if r.result != nil && len(r.result.Missing) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive, the monitors observed too little:", strings.Join(r.result.Missing, "; "))
		return ExitInconclusive
	}

	if replay == "" {
		fmt.Printf("OK property=%s tier=%s seed=%d\n", prop, tier, seed)
	}
	return ExitOK
}

func looksCrashed(s string) bool {
	return strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "SIGSEGV")
}

// dedupeRaces keeps one report per pair of stacks with addresses and goroutine numbers stripped.
func dedupeRaces(reps []string) []string {
	seen := map[string]bool{}
	var res []string
	for _, r := range reps {
		var key strings.Builder
		for _, l := range strings.Split(r, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasSuffix(l, ")") && !strings.HasPrefix(l, "/") {
				key.WriteString(l + ";")
			}
		}
		if !seen[key.String()] {
			seen[key.String()] = true
			res = append(res, r)
		}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
