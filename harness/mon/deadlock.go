package mon

import (
	"runtime"
	"strings"
	"time"
)

const codeUnderTest = "github.com/r3volut1oner/go-karbo/"

// stuck lists goroutines that are inside of the code under test: whether each of them waits for a lock, by its stack.
func stuck() map[string]bool {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	res := map[string]bool{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.Index(g, "[")
		j := strings.Index(g, "]:")
		if i < 0 || j < i || !strings.Contains(g[j:], codeUnderTest) {
			continue
		}
		calls := g[j:]
		if k := strings.Index(calls, "created by"); k >= 0 { // where it is started does not matter
			if calls = calls[:k]; !strings.Contains(calls, codeUnderTest) {
				continue
			}
		}
		state := strings.SplitN(g[i+1:j], ",", 2)[0]
		lock := strings.HasPrefix(state, "sync.Mutex") || strings.HasPrefix(state, "sync.RWMutex") || state == "semacquire"
		res[g[:i]+calls] = lock
	}
	return res
}

// deadlocked tells if everything that is inside of the code under test waits for its locks: no machine is slow enough
// to explain that. New cases must not be started meanwhile, the others get time to end.
func deadlocked(patience time.Duration) bool {
	end := time.Now().Add(patience)
	for {
		a := stuck()
		all := len(a) > 0
		for _, lock := range a {
			all = all && lock
		}
		if all {
			time.Sleep(3 * time.Second)
			b := stuck()
			same := len(a) == len(b)
			for g, lock := range a {
				l, ok := b[g]
				same = same && ok && l == lock
			}
			if same {
				return true
			}
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(500 * time.Millisecond)
	}
}
