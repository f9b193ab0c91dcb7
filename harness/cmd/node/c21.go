package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/ref"
	"verifharness/sim"
)

// serveLimit is how long a well-behaved peer may wait for a reply. The node reads one command a second from a connection.
const serveLimit = 30 * time.Second

// hostile is one way to misbehave on a fresh connection. It tells if the connection is to be held open.
type hostile struct {
	name string
	hold bool
	run  func(e *env, x *client)
}

// env is what hostile peers know about the node.
type env struct {
	t   *mon.T
	s   *server
	w   *sim.World
	lc  *chain
	n   int
	ids []uint64
}

func (e *env) hello(r *rand.Rand) hello {
	i := r.Intn(e.n + 1)
	h := helloOf(e.w.Net, r, uint32(i+1), e.lc.hash(i))
	h.id = e.ids[r.Intn(len(e.ids))]
	return h
}

// ahead is a handshake of a peer with a longer chain.
func (e *env) ahead(r *rand.Rand) hello {
	h := e.hello(r)
	h.height = uint32(e.n + 2 + r.Intn(500))
	if r.Intn(3) == 0 {
		h.height = gen.U32(r)
	}
	h.top = crypto.Hash(gen.B32(r))
	return h
}

func reset(c net.Conn) {
	if x, ok := c.(*net.TCPConn); ok {
		_ = x.SetLinger(0)
	}
	_ = c.Close()
}

// leave ends the connection in one of the ways.
func leave(x *client) {
	switch x.r.Intn(3) {
	case 0:
		reset(x.Conn)
	case 1: // half close: the node has to see the end and to close its side
		if c, ok := x.Conn.(*net.TCPConn); ok {
			_ = c.CloseWrite()
			_ = x.SetReadDeadline(time.Now().Add(3 * time.Second))
			b := make([]byte, 4096)
			for {
				if _, err := x.Read(b); err != nil {
					break
				}
			}
		}
		_ = x.Close()
	default:
		_ = x.Close()
	}
}

func nap(r *rand.Rand, ms int) { time.Sleep(time.Duration(r.Intn(ms*1000)) * time.Microsecond) }

// wild is any message, whole or damaged, as any sort of packet.
func wild(r *rand.Rand) frame {
	m := msg.Gen(r, r.Intn(msg.Kinds), r.Intn(10) == 0)
	f := frame{cmd: m.ID, ret: m.Kind == 'c', flags: 1, payload: m.Node.Doc()}
	if f.cmd == 0 {
		f.cmd = msg.CommandHandshake + uint32(r.Intn(3))
		f.ret = r.Intn(2) == 0
	}
	switch r.Intn(6) {
	case 0:
		f.cmd = []uint32{1001, 1002, 1003, 2001, 2002, 2003, 2004, 2006, 2007, 2008, 2009, 2010}[r.Intn(12)]
	case 1:
		f.ret = !f.ret
	case 2:
		f.flags = uint32(r.Intn(4))
	}
	if r.Intn(3) == 0 {
		f.payload = damage(r, f.payload)
	}
	return f
}

func damage(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= 1 << uint(r.Intn(8))
		case 2:
			b[i] = byte(r.Intn(256))
		case 3:
			b = append(b[:i:i], append(gen.Bytes(r, 1+r.Intn(8)), b[i:]...)...)
		case 4: // a size prefix that tells too much
			for j := 0; j < 8 && i+j < len(b); j++ {
				b[i+j] = 0xff
			}
		}
	}
	return b
}

// lies are answers to questions of the node and packets it never asked for.
func (e *env) lies(r *rand.Rand) frame {
	switch r.Intn(5) {
	case 0, 1: // chain entries
		var hs []crypto.Hash
		if r.Intn(4) > 0 {
			hs = append(hs, e.lc.hash(r.Intn(e.n+1)))
		}
		for k := r.Intn(6); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				hs = append(hs, e.lc.hash(r.Intn(chainLen)))
			case 1:
				hs = append(hs, crypto.Hash{byte(r.Intn(3))})
			default:
				hs = append(hs, crypto.Hash(gen.B32(r)))
			}
		}
		if r.Intn(5) == 0 {
			for k := 0; k < 700; k++ {
				hs = append(hs, crypto.Hash(gen.B32(r)))
			}
		}
		start, total := gen.U32(r), gen.U32(r)
		if r.Intn(2) == 0 {
			start, total = uint32(r.Intn(e.n+1)), uint32(e.n+r.Intn(300))
		}
		return notice(msg.NoticeChainEntry, chainEntry(start, total, hs))
	case 2, 3: // blocks
		var bs [][]byte
		var txs [][][]byte
		for k := r.Intn(4); k > 0; k-- {
			i := r.Intn(chainLen)
			b := cn.Block(e.lc.list[i].Block)
			if r.Intn(2) == 0 {
				b = damage(r, b)
			}
			raw := append([][]byte{}, e.lc.raw[i]...)
			if r.Intn(3) == 0 {
				raw = append(raw, gen.Bytes(r, r.Intn(200)))
			}
			if len(raw) > 0 && r.Intn(3) == 0 {
				j := r.Intn(len(raw))
				raw[j] = damage(r, raw[j])
			}
			bs, txs = append(bs, b), append(txs, raw)
		}
		return notice(msg.NoticeObjects, objects(gen.U32(r), bs, txs))
	}
	var hs []crypto.Hash
	for k := r.Intn(30); k > 0; k-- {
		hs = append(hs, crypto.Hash(gen.B32(r)))
	}
	if r.Intn(2) == 0 {
		hs = append(hs, e.lc.hash(0))
	}
	return notice(msg.NoticeChainRequest, requestChain(hs))
}

var hostiles = []hostile{
	{"garbage", false, func(e *env, x *client) { _ = x.bytes(gen.Bytes(x.r, 1+x.r.Intn(3000))); nap(x.r, 1500) }},
	{"part of a header", false, func(e *env, x *client) {
		_ = x.bytes(request(1001, nil).bytes()[:1+x.r.Intn(headSize-1)])
		nap(x.r, 1500)
	}},
	{"part of a packet", false, func(e *env, x *client) {
		b := request(1001, e.hello(x.r).payload()).bytes()
		_ = x.bytes(b[:headSize+x.r.Intn(len(b)-headSize)])
		nap(x.r, 2500)
	}},
	{"large part of a large packet", false, func(e *env, x *client) {
		_ = x.bytes(append(head(signature, maxPacket, x.r.Intn(2) == 0, 2004, 0, 1, 1), make([]byte, x.r.Intn(3000000))...))
		nap(x.r, 1500)
	}},
	{"impossible size", false, func(e *env, x *client) {
		size := []uint64{maxPacket + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1}[x.r.Intn(6)]
		_ = x.bytes(append(head(signature, size, true, 1001, 0, 1, 1), gen.Bytes(x.r, x.r.Intn(200))...))
		if b, ok := x.dropped(serveLimit); !ok {
			e.t.Failf("peer that sent a packet of size %d is not dropped", size)
		} else if len(b) > 0 {
			e.t.Failf("packet of size %d is answered: %s", size, mon.Hex(b))
		}
		e.t.Count("peers with impossible packets dropped", 1)
	}},
	{"wrong signature", false, func(e *env, x *client) {
		b := request(1001, e.hello(x.r).payload()).bytes()
		b[x.r.Intn(8)] ^= 1 << uint(x.r.Intn(8))
		_ = x.bytes(b)
		if b, ok := x.dropped(serveLimit); !ok {
			e.t.Failf("peer that sent a wrong signature is not dropped")
		} else if len(b) > 0 {
			e.t.Failf("packet with a wrong signature is answered: %s", mon.Hex(b))
		}
		e.t.Count("peers with impossible packets dropped", 1)
	}},
	{"flood", false, func(e *env, x *client) {
		if x.r.Intn(2) == 0 {
			_ = x.send(request(1001, e.hello(x.r).payload()))
		}
		for k := 0; k < 300; k++ {
			b := wild(x.r).bytes()
			if k == 8 { // the node reads one packet a second, here it has to stop
				b[x.r.Intn(8)] ^= 1 << uint(x.r.Intn(8))
			}
			if x.bytes(b) != nil {
				break
			}
		}
		nap(x.r, 3000)
	}},
	{"wild messages", false, func(e *env, x *client) {
		for k := 0; k < 6; k++ {
			if k == 1 && x.r.Intn(2) == 0 {
				_ = x.send(request(1001, e.hello(x.r).payload()))
			}
			if x.send(wild(x.r)) != nil {
				break
			}
			nap(x.r, 700)
		}
		nap(x.r, 3000)
	}},
	{"wrong order", false, func(e *env, x *client) {
		fs := []frame{request(1002, timedSync(gen.U32(x.r), crypto.Hash{1})), e.lies(x.r), e.lies(x.r), response(1001, welcome(e.hello(x.r), nil)),
			request(1001, e.hello(x.r).payload()), request(1001, e.hello(x.r).payload())}
		x.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		_ = x.send(fs[:3+x.r.Intn(4)]...)
		nap(x.r, 6000)
	}},
	{"liar", false, func(e *env, x *client) {
		h := e.hello(x.r)
		if x.r.Intn(3) > 0 {
			h = e.ahead(x.r)
		}
		_ = x.send(request(1001, h.payload()))
		if x.r.Intn(2) == 0 { // waits for the question
			if _, err := x.answer(msg.NoticeChainRequest, 5*time.Second); err == nil {
				e.t.Count("questions of the node to liars", 1)
			}
		}
		for k := 0; k < 5; k++ {
			if x.send(e.lies(x.r)) != nil {
				break
			}
		}
		nap(x.r, 6000)
	}},
	{"foreign network", false, func(e *env, x *client) {
		h := e.hello(x.r)
		h.net = otherNetwork(x.r, e.w.Net)
		_ = x.send(request(1001, h.payload()))
		if _, ok := x.dropped(serveLimit); !ok {
			e.t.Failf("peer of another network is not dropped")
		}
	}},
	{"leaves after the handshake", false, func(e *env, x *client) {
		_ = x.send(request(1001, e.hello(x.r).payload()))
		if x.r.Intn(2) == 0 {
			_, _ = x.answer(1001, serveLimit)
		}
	}},
	{"leaves with requests unanswered", false, func(e *env, x *client) {
		_ = x.send(request(1001, e.hello(x.r).payload()), request(1002, timedSync(1, e.lc.hash(0))), request(1002, timedSync(1, e.lc.hash(0))))
		nap(x.r, 2200)
	}},
	{"silent", true, func(e *env, x *client) {}},
	{"silent after the handshake", true, func(e *env, x *client) { _ = x.send(request(1001, e.hello(x.r).payload())) }},
	{"silent after a part of a packet", true, func(e *env, x *client) {
		b := request(1001, e.hello(x.r).payload()).bytes()
		_ = x.bytes(b[:1+x.r.Intn(len(b)-1)])
	}},
	{"silent in the synchronization", true, func(e *env, x *client) { _ = x.send(request(1001, e.ahead(x.r).payload())) }},
	{"never reads", true, func(e *env, x *client) {
		_ = x.send(request(1001, e.hello(x.r).payload()))
		for k := 0; k < 8; k++ {
			_ = x.send(request(1002, timedSync(1, e.lc.hash(0))))
		}
	}},
}

// good is a well-behaved peer, it tells what is wrong with the node.
func good(e *env, r *rand.Rand, x *client, syncs int) string {
	h := e.hello(r)
	h.id = uint64(r.Int63())&^0xff | 1
	ask := func(q frame) string {
		if err := x.send(q); err != nil {
			return fmt.Sprintf("command %d is not sent: %v", q.cmd, err)
		}
		from := time.Now()
		f, err := x.answer(q.cmd, serveLimit)
		if err != nil {
			return fmt.Sprintf("no reply to the command %d in %v: %v", q.cmd, time.Since(from), err)
		}
		if _, bad := readReply(f, q.cmd, e.w.Net); bad != "" {
			return bad
		}
		if time.Since(from) > 10*time.Second {
			e.t.Count("slow replies", 1)
		}
		return ""
	}
	if s := ask(request(msg.CommandHandshake, h.payload())); s != "" {
		return "handshake: " + s
	}
	for k := 0; k < syncs; k++ {
		i := r.Intn(e.n + 1)
		if s := ask(request(msg.CommandTimedSync, timedSync(uint32(i+1), e.lc.hash(i)))); s != "" {
			return fmt.Sprintf("timed sync %d: %s", k, s)
		}
	}
	return ""
}

// descriptors are open files of the process.
func descriptors() (all int, files []string) {
	fs, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, nil
	}
	for _, f := range fs {
		s, err := os.Readlink("/proc/self/fd/" + f.Name())
		if err != nil {
			continue
		}
		all++
		files = append(files, s)
	}
	return
}

func opened(files, before []string) (r []string) {
	had := map[string]bool{}
	for _, f := range before {
		had[f] = true
	}
	for _, f := range files {
		if own := os.Getenv("VERIF_RESULT"); own != "" && strings.HasPrefix(f, filepath.Dir(own)+"/") {
			continue
		}
		if !had[f] && strings.HasPrefix(f, "/") && !strings.HasPrefix(f, "/proc/") && !strings.HasPrefix(f, "/sys/") {
			r = append(r, f)
		}
	}
	return
}

// until waits for the condition.
func until(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); ; time.Sleep(50 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

func newEnv(t *mon.T) *env {
	lc := longChain(t, t.Rng.Intn(3) == 0)
	n := t.Rng.Intn(300)
	e := &env{t: t, lc: lc, n: n, w: lc.prefix(t, n)}
	for k := 0; k < 6; k++ {
		e.ids = append(e.ids, uint64(k))
	}
	for k := 0; k < 20; k++ {
		e.ids = append(e.ids, t.Rng.Uint64()|1)
	}
	return e
}

// chainStays tells if the chain of the node is a part of the true one that has at least what it had.
func (e *env) chainStays() string {
	h := int(e.w.BC.Height()) - 1
	if h < e.n || h > chainLen {
		return fmt.Sprintf("height is %d, it was %d", h+1, e.n+1)
	}
	return chainIs(e.w, e.lc, h)
}

func c21(c *mon.Ctx) {
	c.Rule("A case is a node with hostile and well-behaved peers over loopback TCP, a node that connects to a hostile server, or concurrent peers that give messages to the handlers. Monitors: race detector, panics, replies to well-behaved peers, sockets and descriptors and goroutines left, time to stop, chain, files. Non trivial: the node runs or a handler is called.")
	c.Assume("A well-behaved peer gets its reply in 30 s and the node stops in 20 s; the node itself waits a second before each command and up to six in its listener.")

	// Files would appear here.
	scratch, err := os.MkdirTemp("", "verif-c21-")
	if err != nil {
		c.Violatef("files", "no scratch: %v", err)
		return
	}
	defer os.RemoveAll(scratch)
	old, _ := os.Getwd()
	for _, d := range []string{"cwd", "home", "tmp"} {
		_ = os.Mkdir(filepath.Join(scratch, d), 0755)
	}
	if err := os.Chdir(filepath.Join(scratch, "cwd")); err != nil {
		c.Violatef("files", "no scratch: %v", err)
		return
	}
	defer os.Chdir(old)
	for k, d := range map[string]string{"HOME": "home", "TMPDIR": "tmp", "XDG_CONFIG_HOME": "home", "XDG_CACHE_HOME": "home", "XDG_DATA_HOME": "home"} {
		_ = os.Setenv(k, filepath.Join(scratch, d))
	}
	before, had := descriptors()
	var bad atomic.Value
	ended := make(chan bool)
	var looks int64
	go func() { // files that are open
		for {
			select {
			case <-ended:
				return
			case <-time.After(100 * time.Millisecond):
			}
			_, fs := descriptors()
			if o := opened(fs, had); len(o) > 0 {
				bad.Store(strings.Join(o, ", "))
			}
			atomic.AddInt64(&looks, 1)
		}
	}()

	if haveHandle {
		c.ParL("handlers", c.N(120, 2400), 4, 120*time.Second, func(t *mon.T) { handlers21(t) })
		c.Require("handler calls", 3000)
		c.Require("handler calls that failed", 500)
		c.Require("replies to well-behaved peers", 200)
		c.ParL("stuck", c.N(16, 160), 4, 120*time.Second, func(t *mon.T) { stuck21(t) })
		c.Require("peers stuck in writing", 20)
	}
	if haveSync {
		c.ParL("outgoing", c.N(48, 600), 24, 180*time.Second, func(t *mon.T) { outgoing21(t) })
		c.Require("outgoing connections", 20)
		c.Require("outgoing connections stopped", 5)
	}
	if haveHandle && haveState {
		c.SeqL("hoard", c.N(10, 60), 120*time.Second, func(t *mon.T) { hoard21(t) })
		c.Require("messages repeated", 150)
	}
	c.ParL("sessions", c.N(6, 48), 6, 240*time.Second, func(t *mon.T) { sessions21(t) })
	c.Require("hostile peers", 150)
	c.Require("well-behaved peers served", 30)
	c.Require("nodes stopped", 4)
	c.Require("connections cut by the stop", 10)

	c.SeqL("census", c.N(1, 4), 240*time.Second, func(t *mon.T) { census21(t) })
	c.Require("connections released", 40)

	// Nothing is left.
	c.SeqL("rest", 1, 120*time.Second, func(t *mon.T) {
		if !until(20*time.Second, func() bool { return stacks("go-karbo/p2p") == "" }) {
			t.Failf("all nodes are stopped, but there are goroutines of them:\n%s", stacks("go-karbo/p2p"))
		}
		if !until(20*time.Second, func() bool { n, _ := descriptors(); return n <= before+3 }) {
			n, fs := descriptors()
			t.Failf("all nodes are stopped, but there are %d descriptors, there were %d: %v", n, before, fs)
		}
		close(ended)
		if s, ok := bad.Load().(string); ok {
			t.Failf("node opens files: %s", s)
		}
		_ = filepath.Walk(scratch, func(p string, i os.FileInfo, err error) error {
			rel, _ := filepath.Rel(scratch, p)
			if strings.Contains(rel, "/") {
				t.Failf("node makes the file %s", rel)
			}
			return nil
		})
		t.Count("looks at open files", atomic.LoadInt64(&looks))
		t.Distinct("rest")
	})

	if daemonPath() != "" {
		c.SeqL("daemon", c.N(1, 6), 240*time.Second, func(t *mon.T) { daemonHostile(t) })
		c.SeqL("crowd", c.N(1, 6), 240*time.Second, func(t *mon.T) { daemonCrowded(t) })
	}
}

// handlers21 gives messages of concurrent peers to the handlers of one node.
func handlers21(t *mon.T) {
	e := newEnv(t)
	node := newNode(e.w, "")
	var wg sync.WaitGroup
	trace := make([]atomic.Value, 8)
	last := int64(0)
	peers := 1 + t.Rng.Intn(6)
	for k := 0; k < peers; k++ {
		k := k
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			p, stack := mon.Caught(func() {
				con := &tap{}
				if r.Intn(3) == 0 {
					con.pause = yields(rand.New(rand.NewSource(r.Int63())))
				}
				peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), r.Intn(4) > 0)
				for i := 0; i < 25; i++ {
					if r.Intn(8) == 0 { // the next one
						con = &tap{}
						peer = p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), r.Intn(4) > 0)
					}
					if haveState && r.Intn(6) == 0 {
						setState(peer, byte(r.Intn(7)))
					}
					con.mu.Lock()
					con.fail = nil
					if r.Intn(6) == 0 {
						m := r.Intn(60)
						con.fail = func(n int) (int, error) { return min(m, n), errCut }
					}
					con.mu.Unlock()
					f := wild(r)
					switch r.Intn(6) {
					case 0, 1:
						f = e.lies(r)
					case 2:
						f = request(1001, e.hello(r).payload())
					case 3:
						f = request(1002, timedSync(gen.U32(r), crypto.Hash(gen.B32(r))))
						if r.Intn(2) == 0 {
							f = request(1001, e.ahead(r).payload())
						}
					}
					trace[k].Store(fmt.Sprintf("notify %v command %d payload %s", !f.ret, f.cmd, mon.Hex(f.payload)))
					if haveStore && r.Intn(8) == 0 {
						_ = put(node, peer, r.Intn(2) == 0)
					}
					err := handle(node, peer, !f.ret, f.cmd, f.payload)
					t.Count("handler calls", 1)
					if err != nil {
						t.Count("handler calls that failed", 1)
					}
					if _, err := parseFrames(con.taken()); err != nil && con.fail == nil {
						t.Failf("broken packets: %v", err)
					}
					atomic.AddInt64(&last, 1)
				}
			})
			if p != nil {
				s, _ := trace[k].Load().(string)
				t.Failf("panic: %v\n%s\n%s", p, s, stack)
			}
		}()
	}
	// and one that behaves
	r := rand.New(rand.NewSource(t.Rng.Int63()))
	for k := 0; k < 4 && !t.Failed(); k++ {
		if s := goodHandle(e, r, node); s != "" {
			t.Failf("well-behaved peer among hostile ones: %s", s)
		}
	}
	wg.Wait()
	if s := e.chainStays(); s != "" {
		t.Failf("after %d messages: %s", last, s)
	}
	if s := goodHandle(e, r, node); s != "" {
		t.Failf("well-behaved peer after hostile ones: %s", s)
	}
	t.Distinct("handlers", e.n, peers)
}

// hoard21 has a peer that repeats large messages. The node must not collect what they hold.
func hoard21(t *mon.T) {
	e := newEnv(t)
	r := t.Rng
	node := newNode(e.w, "")
	con := &tap{}
	peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), true)
	_ = handle(node, peer, false, 1001, e.ahead(r).payload())
	setState(peer, stSynchronizing)
	const size = 20000
	some := func() (hs []crypto.Hash) {
		for i := 0; i < size; i++ {
			hs = append(hs, crypto.Hash(gen.B32(r)))
		}
		return
	}
	fixed := some()
	fixed[0] = e.lc.hash(0)
	names := []string{"chain", "the same chain", "request of a chain", "pool", "blocks"}
	kind := t.I % len(names)
	message := func() frame {
		switch kind {
		case 0:
			hs := some()
			hs[0] = e.lc.hash(0)
			return notice(msg.NoticeChainEntry, chainEntry(0, size+5, hs))
		case 1:
			return notice(msg.NoticeChainEntry, chainEntry(0, size+5, fixed))
		case 2:
			return notice(msg.NoticeChainRequest, requestChain(append(some(), e.lc.hash(0))))
		case 3:
			return notice(msg.NoticeTxPool, ref.Obj("", ref.Bin("txs", cat(some()))).Doc())
		default:
			return notice(msg.NoticeObjects, objects(size, [][]byte{gen.Bytes(r, size*32)}, [][][]byte{nil}))
		}
	}
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := uint64(0)
	for k := 0; k < 60; k++ {
		if k == 10 {
			before = heap()
		}
		f := message()
		_ = handle(node, peer, true, f.cmd, f.payload)
		_ = con.taken()
		t.Count("messages repeated", 1)
		if view(peer).state == stShutdown { // the loop of the connection ends here
			t.Count("peers dropped for repeated messages", 1)
			t.Distinct("hoard", names[kind])
			return
		}
	}
	if after := heap(); after > before+12<<20 {
		t.Failf("%s: 50 messages of %d bytes more, and the heap grows from %d to %d bytes", names[kind], size*32, before, after)
	}
	runtime.KeepAlive(peer)
	runtime.KeepAlive(node)
	t.Distinct("hoard", names[kind])
}

func goodHandle(e *env, r *rand.Rand, node *p2p.Node) string {
	con := &tap{}
	peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), true)
	h := e.hello(r)
	h.id |= 1 << 40
	for _, f := range []frame{request(1001, h.payload()), request(1002, timedSync(h.height, h.top))} {
		if err := handle(node, peer, false, f.cmd, f.payload); err != nil {
			return fmt.Sprintf("command %d: %v", f.cmd, err)
		}
		fs, err := parseFrames(con.taken())
		if err != nil || len(fs) != 1 {
			return fmt.Sprintf("command %d: %d replies, %v", f.cmd, len(fs), err)
		}
		if _, bad := readReply(fs[0], f.cmd, e.w.Net); bad != "" {
			return bad
		}
		e.t.Count("replies to well-behaved peers", 1)
	}
	return ""
}

// stuck21 has peers that never read, so writes to them do not return. Others must be served.
func stuck21(t *mon.T) {
	e := newEnv(t)
	node := newNode(e.w, "")
	r := t.Rng
	var sides []net.Conn
	var wg sync.WaitGroup
	var inside int64
	for k := 0; k < 4; k++ {
		a, b := net.Pipe()
		sides = append(sides, a, b)
		peer := p2p.NewPeer(logger().Sugar(), lp(a), someAddress(r), true)
		fs := []frame{request(1001, e.hello(r).payload())}
		if k%2 == 1 && haveState { // a question of the synchronization
			setState(peer, stSynchronizing)
			hs := []crypto.Hash{e.lc.hash(e.n)}
			for i := 1; i < 6; i++ {
				hs = append(hs, e.lc.hash(e.n+i))
			}
			fs = []frame{notice(msg.NoticeChainEntry, chainEntry(uint32(e.n), uint32(e.n+6), hs))}
		} else if k == 2 {
			fs = []frame{request(1002, timedSync(1, e.lc.hash(0)))}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range fs {
				atomic.AddInt64(&inside, 1)
				_ = handle(node, peer, !f.ret, f.cmd, f.payload)
			}
		}()
	}
	until(2*time.Second, func() bool { return atomic.LoadInt64(&inside) == 4 })
	time.Sleep(20 * time.Millisecond)
	done := make(chan string, 1)
	seed := r.Int63()
	go func() {
		p, stack := mon.Caught(func() {
			r := rand.New(rand.NewSource(seed))
			s := ""
			for k := 0; k < 3 && s == ""; k++ {
				s = goodHandle(e, r, node)
			}
			if s == "" && e.n < chainLen { // the chain is not locked too
				if err := e.w.BC.AddBlock(sim.Clone(e.lc.list[e.n].Block), e.lc.raw[e.n]); err != nil {
					s = fmt.Sprintf("block is not taken: %v", err)
				}
			}
			done <- s
		})
		if p != nil {
			done <- fmt.Sprintf("panic: %v\n%s", p, stack)
		}
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Failf("well-behaved peer, others do not read: %s", s)
		}
	case <-time.After(serveLimit):
		t.Failf("well-behaved peer waits for peers that do not read\n%s", stacks("go-karbo/p2p"))
	}
	t.Count("peers stuck in writing", int64(atomic.LoadInt64(&inside)))
	for _, s := range sides {
		_ = s.Close()
	}
	ended := make(chan bool)
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(serveLimit):
		t.Failf("handlers of closed connections do not return\n%s", stacks("go-karbo/p2p"))
	}
	t.Distinct("stuck", e.n)
}

// outgoing21 is a node that connects to a hostile server.
func outgoing21(t *mon.T) {
	e := newEnv(t)
	r := t.Rng
	node := newNode(e.w, "")
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		t.Failf("no loopback: %v", err)
		return
	}
	addr := l.Addr().String()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	kind := t.I % 14
	if kind == 0 { // nobody listens
		_ = l.Close()
	} else {
		defer l.Close()
	}
	ended := make(chan interface{}, 1)
	go func() {
		p, stack := mon.Caught(func() { syncWith(ctx, node, addr) })
		if p != nil {
			ended <- fmt.Sprintf("panic: %v\n%s", p, stack)
			return
		}
		ended <- nil
	}()
	returns := func(what string) bool {
		select {
		case p := <-ended:
			if p != nil {
				t.Failf("%s: %v", what, p)
			}
			return true
		case <-time.After(stopLimit):
			t.Failf("%s: the node still waits after %v\n%s", what, stopLimit, stacks("syncWithAddr"))
			return false
		}
	}
	t.Distinct("outgoing", kind, e.n)
	if kind == 0 {
		returns("nobody listens")
		t.Count("outgoing connections", 1)
		return
	}
	_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
	con, err := l.Accept()
	if err != nil {
		t.Failf("node does not connect: %v", err)
		return
	}
	defer con.Close()
	x := &client{con, r}
	t.Count("outgoing connections", 1)
	if kind == 1 {
		reset(con)
		returns("connection is reset at once")
		return
	}
	f, err := recv(x, 20*time.Second)
	if err != nil || f.cmd != msg.CommandHandshake || !f.ret {
		t.Failf("no handshake request: %v, %v", f, err)
		return
	}
	h := e.hello(r)
	h.id |= 1
	right := response(1001, welcome(h, nil))
	what, stays := "", false
	switch kind {
	case 2:
		what = "connection is closed before the answer"
		leave(x)
		returns(what)
		return
	case 3:
		what = "garbage"
		_ = x.bytes(append([]byte{0}, gen.Bytes(r, 40+r.Intn(500))...))
	case 4:
		what = "answer to another command"
		right.cmd = 1002 + uint32(r.Intn(2))
		_ = x.send(right)
	case 5:
		what = "request instead of the answer"
		right.flags, right.ret = 1, true
		_ = x.send(right)
	case 6:
		what = "answer of another network"
		h.net = otherNetwork(r, e.w.Net)
		_ = x.send(response(1001, welcome(h, nil)))
	case 7:
		what = "answer of an old version"
		if e.w.Net.P2PMinimumVersion == 0 {
			return
		}
		h.version = byte(r.Intn(int(e.w.Net.P2PMinimumVersion)))
		_ = x.send(response(1001, welcome(h, nil)))
	case 8:
		what = "damaged answer"
		right.payload = right.payload[:r.Intn(len(right.payload))]
		_ = x.send(right)
	case 9:
		what = "answer of impossible size"
		_ = x.bytes(head(signature, maxPacket+1+uint64(r.Int63()), false, 1001, 1, 2, 1))
	case 10, 11: // a right answer
		_ = x.send(right)
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(2) == 0 {
				_ = x.send(e.lies(r))
			} else {
				_ = x.send(wild(r))
			}
		}
		if kind == 10 {
			what = "server leaves"
			nap(r, 2500)
			leave(x)
			returns(what)
			return
		}
		what, stays = "silent server after the handshake", true
	case 12:
		what, stays = "silent server", true
	case 13:
		what, stays = "server that stops in the answer", true
		b := right.bytes()
		_ = x.bytes(b[:r.Intn(len(b))])
	}
	if stays {
		nap(r, 2500)
		cancel()
		what += ", node is stopped"
		t.Count("outgoing connections stopped", 1)
	}
	if !returns(what) {
		return
	}
	if _, ok := x.dropped(stopLimit); !ok {
		t.Failf("%s: the node has left but its connection stays", what)
	}
	if s := e.chainStays(); s != "" {
		t.Failf("%s: %s", what, s)
	}
	t.Count("outgoing connections closed by the node", 1)
}

// sessions21 is a node with hostile and well-behaved peers.
func sessions21(t *mon.T) {
	e := newEnv(t)
	r := t.Rng
	e.s = start(t, e.w)
	stopped := false
	defer func() {
		if !stopped {
			e.s.cancel()
		}
	}()
	var held []*client
	var mu sync.Mutex
	var wg sync.WaitGroup
	end := make(chan bool)
	served := int64(0)
	for k := 0; k < 2; k++ { // well-behaved ones all the time
		r := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				x, err := net.DialTimeout("tcp4", e.s.addr, serveLimit)
				if err != nil {
					t.Failf("well-behaved peer is not connected: %v", err)
					return
				}
				s := good(e, r, &client{x, r}, 2)
				_ = x.Close()
				if s != "" {
					t.Failf("well-behaved peer: %s", s)
					return
				}
				atomic.AddInt64(&served, 1)
				select {
				case <-end:
					return
				default:
				}
			}
		}()
	}
	var bad sync.WaitGroup
	total := 40
	for k := 0; k < total; k++ {
		r := rand.New(rand.NewSource(r.Int63()))
		h := hostiles[(k+t.I*7)%len(hostiles)]
		bad.Add(1)
		go func() {
			defer bad.Done()
			nap(r, 6000)
			con, err := net.DialTimeout("tcp4", e.s.addr, serveLimit)
			if err != nil {
				t.Failf("node takes no connection: %v", err)
				return
			}
			x := &client{con, r}
			h.run(e, x)
			t.Count("hostile peers", 1)
			t.Count("hostile: "+h.name, 1)
			if h.hold {
				mu.Lock()
				held = append(held, x)
				mu.Unlock()
				return
			}
			leave(x)
		}()
	}
	bad.Add(1)
	storm := r.Int63()
	go func() { // connections that end at once
		defer bad.Done()
		r := rand.New(rand.NewSource(storm))
		for k := 0; k < 60; k++ {
			con, err := net.DialTimeout("tcp4", e.s.addr, serveLimit)
			if err != nil {
				t.Failf("node takes no connection: %v", err)
				return
			}
			if r.Intn(2) == 0 {
				reset(con)
			} else {
				_ = con.Close()
			}
			if r.Intn(3) == 0 {
				nap(r, 100)
			}
			t.Count("connections that end at once", 1)
		}
	}()
	bad.Wait()
	close(end)
	wg.Wait()
	t.Count("well-behaved peers served", atomic.LoadInt64(&served))
	if t.Failed() {
		return
	}
	// connections of those who left are released
	var last map[string]int
	if !until(serveLimit, func() bool {
		last = sockets(e.s.port)
		return last[tcpCloseWait] == 0 && last[tcpEstablished] <= len(held)
	}) {
		t.Failf("%d peers are connected, but sockets of the node are %v (by the state of TCP, 01 established, 08 closed by the peer)\n%s", len(held), last, clip(stacks("connectionHandler"), 3000))
		return
	}
	if s := e.chainStays(); s != "" {
		t.Failf("after hostile peers: %s", s)
	}
	// some that are in the middle of something
	for k := 0; k < 6; k++ {
		x := dial(t, e.s, rand.New(rand.NewSource(r.Int63())))
		h := hostiles[len(hostiles)-1-r.Intn(5)]
		h.run(e, x)
		held = append(held, x)
	}
	nap(r, 3000)
	stopped = true
	e.s.stop(t)
	if t.Failed() {
		return
	}
	for _, x := range held {
		if _, ok := x.dropped(stopLimit); !ok {
			t.Failf("node is stopped but a connection stays")
		}
		t.Count("connections cut by the stop", 1)
		_ = x.Close()
	}
	if listening(e.s.port) {
		t.Failf("node is stopped but it listens")
	}
	last = sockets(e.s.port)
	if last[tcpCloseWait]+last[tcpEstablished] > 0 {
		t.Failf("node is stopped but there are sockets: %v", last)
	}
	t.Distinct("session", e.n, t.I)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// census21 counts descriptors of the process around many connections of one node. The garbage collector is off, it would close what is lost.
func census21(t *mon.T) {
	e := newEnv(t)
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	e.s = start(t, e.w)
	defer e.s.stop(t)
	time.Sleep(200 * time.Millisecond)
	base, _ := descriptors()
	idle := strings.Count(stacks("go-karbo/p2p"), "goroutine ")
	var wg sync.WaitGroup
	for k := 0; k < 60; k++ {
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		h := hostiles[k%len(hostiles)]
		if h.name == "large part of a large packet" {
			h = hostiles[0]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			nap(r, 2000)
			con, err := net.DialTimeout("tcp4", e.s.addr, serveLimit)
			if err != nil {
				t.Failf("node takes no connection: %v", err)
				return
			}
			x := &client{con, r}
			h.run(e, x)
			leave(x)
			t.Count("connections released", 1)
		}()
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	n, g := 0, 0
	if !until(serveLimit, func() bool {
		n, _ = descriptors()
		g = strings.Count(stacks("go-karbo/p2p"), "goroutine ")
		return n <= base+1 && g <= idle
	}) {
		t.Failf("all peers left a running node: %d descriptors, there were %d; %d goroutines of the node, there were %d\n%s", n, base, g, idle, clip(stacks("go-karbo/p2p"), 3000))
	}
	t.Distinct("census", e.n)
}
