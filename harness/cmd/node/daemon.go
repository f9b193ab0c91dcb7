package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"verifharness/cn"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/sim"
)

// The program of the repository, built with the race detector, as its users run it: the main network from the genesis block on.

const daemonPort = 32447

// daemonPath is the program, if it can be built.
func daemonPath() string {
	p := filepath.Join(os.Getenv("VERIF_DIR"), "build", "krbd")
	if _, err := os.Stat(p); err != nil {
		return ""
	}
	return p
}

type daemon struct {
	server
	dir  string
	cmd  *exec.Cmd
	exit chan error
}

// runDaemon starts the program in an empty directory of its own; there is none when another program has its port.
func runDaemon(t *mon.T, files int) *daemon {
	if listening(daemonPort) {
		t.Count("daemons left out: port is taken", 1)
		return nil
	}
	dir, err := os.MkdirTemp("", "verif-krbd-")
	if err != nil {
		t.Failf("no scratch: %v", err)
		t.Stop()
	}
	d := &daemon{dir: dir, exit: make(chan error, 1)}
	for _, s := range []string{"cwd", "home", "tmp"} {
		_ = os.Mkdir(filepath.Join(dir, s), 0755)
	}
	d.port = daemonPort
	d.addr = fmt.Sprintf("127.0.0.1:%d", daemonPort)
	out, err := os.Create(filepath.Join(dir, "log"))
	if err != nil {
		t.Failf("no scratch: %v", err)
		t.Stop()
	}
	defer out.Close()
	d.cmd = exec.Command(daemonPath())
	if files > 0 { // no more than so many descriptors
		d.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d && exec "$0"`, files), daemonPath())
	}
	d.cmd.Dir = filepath.Join(dir, "cwd")
	d.cmd.Stdout, d.cmd.Stderr = out, out
	d.cmd.Env = []string{"PATH=/nonexistent", "HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + filepath.Join(dir, "tmp"), "GORACE=halt_on_error=0 exitcode=66"}
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		runtime.LockOSThread() // the signal of the parent's death comes at the death of this thread
		err := d.cmd.Start()
		started <- err
		if err == nil {
			d.exit <- d.cmd.Wait()
		}
	}()
	if err := <-started; err != nil {
		t.Failf("daemon does not start: %v", err)
		t.Stop()
	}
	from := time.Now()
	for ; time.Since(from) < 60*time.Second; time.Sleep(50 * time.Millisecond) {
		select {
		case err := <-d.exit:
			b := d.log()
			_ = os.RemoveAll(dir)
			if strings.Contains(b, "in use") {
				t.Count("daemons left out: port is taken", 1)
				return nil
			}
			t.Failf("daemon ends at once: %v\n%s", err, tailOf(b))
			t.Stop()
		default:
		}
		if owns(d.cmd.Process.Pid, daemonPort) || (time.Since(from) > 10*time.Second && listening(daemonPort)) {
			return d
		}
	}
	_ = d.cmd.Process.Kill()
	_ = os.RemoveAll(dir)
	t.Failf("daemon does not listen")
	t.Stop()
	return nil
}

// owns tells whether the process listens at the port.
func owns(pid, port int) bool {
	socks := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				socks["socket:["+w[9]+"]"] = true
			}
		}
	}
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	fs, _ := os.ReadDir(dir)
	for _, f := range fs {
		if l, _ := os.Readlink(filepath.Join(dir, f.Name())); socks[l] {
			return true
		}
	}
	return false
}

func (d *daemon) log() string {
	b, _ := os.ReadFile(filepath.Join(d.dir, "log"))
	return string(b)
}

func tailOf(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

// end interrupts the daemon and judges what it left.
func (d *daemon) end(t *mon.T) {
	defer os.RemoveAll(d.dir)
	select {
	case err := <-d.exit:
		t.Failf("daemon ended before it was told to: %v\n%s", err, tailOf(d.log()))
		return
	default:
	}
	from := time.Now()
	_ = d.cmd.Process.Signal(os.Interrupt)
	select {
	case err := <-d.exit:
		if err != nil {
			t.Failf("interrupted daemon ends with %v\n%s", err, tailOf(d.log()))
		}
	case <-time.After(stopLimit):
		_ = d.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-d.exit:
		case <-time.After(5 * time.Second):
			_ = d.cmd.Process.Kill()
		}
		t.Failf("interrupted daemon does not end in %v\n%s", time.Since(from), tailOf(d.log()))
		return
	}
	s := d.log()
	for _, w := range []string{"DATA RACE", "panic:", "fatal error:"} {
		if i := strings.Index(s, w); i >= 0 {
			t.Failf("daemon: %s", s[i:min(len(s), i+3000)])
		}
	}
	_ = filepath.Walk(d.dir, func(p string, i os.FileInfo, err error) error {
		if rel, _ := filepath.Rel(d.dir, p); strings.Contains(rel, "/") {
			t.Failf("daemon makes the file %s", rel)
		}
		return nil
	})
	t.Count("daemons interrupted", 1)
}

var (
	plainMu    sync.Mutex
	plainChain []rblock
)

const plainLen = 300

// plain is a chain of the main network whose blocks hold nothing but their miner transactions and obey all the rules, there is no checkpoint.
func plain(t *mon.T) []rblock {
	plainMu.Lock()
	defer plainMu.Unlock()
	if plainChain != nil {
		return plainChain
	}
	w, err := sim.NewWorld(rand.New(rand.NewSource(4711)), sim.Options{})
	if err != nil {
		t.Failf("chain is not made: %v", err)
		t.Stop()
	}
	for i := 0; i < plainLen; i++ {
		if err := add(w, draft(t, w)); err != nil {
			t.Failf("block %d of the chain is not taken: %v", i+1, err)
			t.Stop()
		}
	}
	bs := []rblock{{hash: w.M.Genesis.Hash, b: cn.Block(w.M.Genesis.Block)}}
	for i := range w.M.List {
		e := &w.M.List[i]
		bs = append(bs, rblock{hash: e.Hash, b: cn.Block(e.Block)})
	}
	plainChain = bs
	return bs
}

// told is what the daemon tells about its chain in the answer to a handshake.
func told(t *mon.T, d *daemon, w *sim.World, r *rand.Rand) (reply, string) {
	x := dial(t, &d.server, r)
	defer x.Close()
	bs := plain(t)
	if err := x.send(request(msg.CommandHandshake, helloOf(w.Net, r, 1, bs[0].hash).payload())); err != nil {
		return reply{}, fmt.Sprintf("handshake: %v", err)
	}
	f, err := x.answer(msg.CommandHandshake, serveLimit)
	if err != nil {
		return reply{}, fmt.Sprintf("handshake is not answered: %v", err)
	}
	return readReply(f, msg.CommandHandshake, w.Net)
}

func mainWorld(t *mon.T) *sim.World {
	w, err := sim.NewWorld(rand.New(rand.NewSource(1)), sim.Options{})
	if err != nil {
		t.Failf("world: %v", err)
		t.Stop()
	}
	return w
}

// daemonSync has the daemon get a chain from a peer, after peers that lie to it, and then tell about it.
func daemonSync(t *mon.T) {
	bs := plain(t)
	w := mainWorld(t)
	r := t.Rng
	d := runDaemon(t, 0)
	if d == nil {
		return
	}
	defer d.end(t)
	have := 0
	for k := 0; k < 3; k++ {
		if y, bad := told(t, d, w, r); bad != "" || y.height != uint32(have+1) || y.top != bs[have].hash {
			t.Failf("daemon with %d blocks tells height %d, top %x: %s", have+1, y.height, y.top, bad)
			return
		}
		total := 3 + r.Intn(100)
		switch k {
		case 1:
			total = have + 3 + r.Intn(len(bs)-have-10)
		case 2:
			total = len(bs)
		}
		x := newRemote(r, bs, total)
		con := dial(t, &d.server, r)
		defer con.Close()
		if err := con.send(request(msg.CommandHandshake, helloOf(w.Net, r, uint32(total), bs[total-1].hash).payload())); err != nil {
			t.Failf("handshake: %v", err)
			return
		}
		spoilAt := -1
		if k == 1 {
			spoilAt = r.Intn(1 + (total-have-2)/batchLimit)
		}
		top := have
		for top < total-1 {
			f, err := recv(con, 30*time.Second)
			if err != nil {
				t.Failf("daemon with %d blocks asks a peer with %d no more: %v", top+1, total, err)
				return
			}
			if f.flags&2 != 0 {
				continue
			}
			a, ok := x.answer(f)
			if !ok {
				t.Failf("unexpected packet %v", f)
				return
			}
			if a.cmd == msg.NoticeObjects {
				if spoilAt == 0 { // the last of the batch is missing
					ids, _ := x.parse(f)
					got := x.pick(ids)
					got[len(got)-1] = rblock{b: bytes.Repeat([]byte{1}, 50)}
					a = notice(msg.NoticeObjects, pack(total, got))
				}
				spoilAt--
			}
			if err := con.send(a); err != nil {
				t.Failf("peer with %d: %v", total, err)
				return
			}
			if k == 1 && spoilAt == -1 && a.cmd == msg.NoticeObjects {
				if _, ok := con.dropped(serveLimit); !ok {
					t.Failf("peer that gave a wrong block is not dropped")
					return
				}
				t.Count("bad peers dropped by the daemon", 1)
				break
			}
			if a.cmd == msg.NoticeObjects {
				top = x.order[len(x.order)-1]
			}
		}
		if k == 1 {
			// what came before is kept or not, in whole blocks
			y, bad := told(t, d, w, r)
			if bad != "" || int(y.height) < have+1 || int(y.height) >= total || y.top != bs[y.height-1].hash {
				t.Failf("after a wrong block the daemon tells height %d, top %x: %s", y.height, y.top, bad)
				return
			}
			have = int(y.height) - 1
			continue
		}
		// the answer to this one comes when the blocks are in the chain
		if err := con.send(request(msg.CommandTimedSync, timedSync(uint32(total), bs[total-1].hash))); err != nil {
			t.Failf("timed sync: %v", err)
			return
		}
		f, err := con.answer(msg.CommandTimedSync, serveLimit)
		if err != nil {
			t.Failf("timed sync is not answered: %v", err)
			return
		}
		y, bad := readReply(f, msg.CommandTimedSync, w.Net)
		if bad == "" && (y.height != uint32(total) || y.top != bs[total-1].hash) {
			bad = fmt.Sprintf("daemon tells height %d, top %x", y.height, y.top)
		}
		if bad == "" {
			bad = x.bad
		}
		if bad == "" && k == 0 {
			bad = x.exact(have + 1)
		}
		if bad != "" {
			t.Failf("peer with %d blocks: %s", total, bad)
			return
		}
		t.Count("blocks synchronized by the daemon", int64(total-1-have))
		have = total - 1
		t.Distinct("daemon", total)
	}
}

// daemonHostile has the daemon serve among hostile peers and end with some of them connected.
func daemonHostile(t *mon.T) {
	w := mainWorld(t)
	e := &env{t: t, lc: longChain(t, false), n: 0, w: w}
	for k := 0; k < 20; k++ {
		e.ids = append(e.ids, t.Rng.Uint64()|1)
	}
	d := runDaemon(t, 0)
	if d == nil {
		return
	}
	e.s = &d.server
	var wg sync.WaitGroup
	var mu sync.Mutex
	var held []net.Conn
	for i := 0; i < 2*len(hostiles); i++ {
		h := hostiles[i%len(hostiles)]
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			nap(r, 2000)
			x := dial(t, e.s, r)
			h.run(e, x)
			if h.hold {
				mu.Lock()
				held = append(held, x.Conn)
				mu.Unlock()
				return
			}
			leave(x)
		}()
	}
	for k := 0; k < 3 && !t.Failed(); k++ {
		x := dial(t, e.s, t.Rng)
		if s := good(e, t.Rng, x, 1); s != "" {
			t.Failf("well-behaved peer of the daemon: %s", s)
		}
		_ = x.Close()
		t.Count("well-behaved peers of the daemon served", 1)
	}
	wg.Wait()
	y, bad := told(t, d, w, t.Rng)
	if bad == "" && y.top != crypto.Hash(e.lc.hash(int(y.height)-1)) {
		bad = fmt.Sprintf("the daemon tells height %d, top %x", y.height, y.top)
	}
	if bad != "" {
		t.Failf("after hostile peers: %s", bad)
	}
	d.end(t)
	for _, c := range held {
		_ = c.Close()
	}
	t.Distinct("daemon")
}

// daemonCrowded has more peers connect to the daemon than it has descriptors for; when they are gone, it serves as before.
func daemonCrowded(t *mon.T) {
	r := t.Rng
	w := mainWorld(t)
	e := &env{t: t, lc: longChain(t, false), n: 0, w: w, ids: []uint64{r.Uint64() | 1, r.Uint64() | 1}}
	const files = 48
	d := runDaemon(t, files)
	if d == nil {
		return
	}
	defer d.end(t)
	e.s = &d.server
	for round := 0; round < 2 && !t.Failed(); round++ {
		x := dial(t, e.s, r)
		if s := good(e, r, x, 1); s != "" {
			t.Failf("well-behaved peer before crowd %d: %s", round, s)
		}
		_ = x.Close()
		var cs []net.Conn
		for k := 0; k < 2*files; k++ {
			c, err := net.DialTimeout("tcp4", d.addr, 5*time.Second)
			if err != nil {
				continue
			}
			cs = append(cs, c)
		}
		full := until(10*time.Second, func() bool {
			fs, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", d.cmd.Process.Pid))
			return len(fs) >= files-1
		})
		if full {
			t.Count("times the daemon is out of descriptors", 1)
		}
		time.Sleep(time.Duration(500+r.Intn(1500)) * time.Millisecond)
		for _, c := range cs {
			if r.Intn(3) == 0 {
				reset(c)
			}
			_ = c.Close()
		}
		x = dial(t, e.s, r)
		if s := good(e, r, x, 1); s != "" {
			t.Failf("well-behaved peer after %d connections that are gone, descriptors are limited to %d: %s", len(cs), files, s)
		}
		_ = x.Close()
		t.Count("well-behaved peers after a crowd", 1)
	}
	t.Distinct("crowded")
}
