package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"verifharness/cn"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
)

const (
	stBefore byte = iota
	stSynchronizing
	stIdle
	stNormal
	stSyncRequired
	stPoolSyncRequired
	stShutdown
)

// zoneEnd is the index of the checkpoint, blocks before it need no work.
const zoneEnd = 100000

// chain is a grown chain with its blocks.
type chain struct {
	w    *sim.World
	list []sim.Entry // list[i] has the index i+1
	raw  [][][]byte
}

var (
	chains  [2]*chain
	chainMu sync.Mutex
)

const chainLen = 700

// longChain is a chain of the network, that is made once. It is not to be changed.
func longChain(t *mon.T, test bool) *chain {
	chainMu.Lock()
	defer chainMu.Unlock()
	k := 0
	if test {
		k = 1
	}
	if chains[k] != nil {
		return chains[k]
	}
	w, err := sim.NewWorld(rand.New(rand.NewSource(int64(77+k))), sim.Options{TestNet: test})
	if err != nil {
		t.Failf("chain is not made: %v", err)
		t.Stop()
	}
	zone(t, w)
	c := &chain{w: w}
	for i := 0; i < chainLen; i++ {
		var txs []*cryptonote.Transaction
		if w.R.Intn(3) == 0 {
			for j := w.R.Intn(4); j > 0; j-- {
				txs = append(txs, w.NewTx(sim.TxOpt{Plain: true, Inputs: 1}))
			}
		}
		x := draft(t, w, txs...)
		if err := add(w, x); err != nil {
			t.Failf("block %d of the chain is not taken: %v", i+1, err)
			t.Stop()
		}
		c.raw = append(c.raw, x.Raw)
	}
	c.list = append([]sim.Entry{}, w.M.List...)
	chains[k] = c
	return c
}

func zone(t *mon.T, w *sim.World) {
	h := crypto.Hash{9}
	if err := w.BC.Checkpoints.AddCheckpoint(zoneEnd, h); err != nil {
		t.Failf("checkpoint: %v", err)
		t.Stop()
	}
	w.M.Point(zoneEnd, h)
}

// draft makes the next valid block.
func draft(t *mon.T, w *sim.World, txs ...*cryptonote.Transaction) *sim.Candidate {
	x, err := w.Next(w.M.Top().Time+200+uint64(w.R.Intn(100)), txs...)
	if err != nil {
		t.Failf("generator: %v", err)
		t.Stop()
	}
	return x
}

// add gives the valid block to the chain and the model.
func add(w *sim.World, x *sim.Candidate) error {
	v := w.M.Judge(x.B, x.Raw, sim.Now())
	if !v.OK() {
		return fmt.Errorf("generator: broken rules: %v", v.Broken)
	}
	y := x.Clone()
	if y == nil {
		return fmt.Errorf("generator: block is not read back")
	}
	if err := w.BC.AddBlock(y.B, y.Raw); err != nil {
		return err
	}
	w.M.Push(x.B, v, w.M.Top().Diff+v.Diff.V.Uint64())
	return nil
}

// prefix is a new chain with the first n blocks of the long one.
func (c *chain) prefix(t *mon.T, n int) *sim.World {
	w, err := c.w.Prefix(rand.New(rand.NewSource(t.Rng.Int63())), c.list[:n], nil)
	if err != nil {
		t.Failf("chain of %d blocks is not made: %v", n, err)
		t.Stop()
	}
	zone(t, w)
	return w
}

// prefixZone is a chain of the first blocks whose checkpoints end at one of them. It can't grow.
func (c *chain) prefixZone(t *mon.T, n, end int) *sim.World {
	w, err := c.w.Prefix(rand.New(rand.NewSource(t.Rng.Int63())), c.list[:n], nil)
	if err == nil {
		err = w.BC.Checkpoints.AddCheckpoint(uint32(end), c.hash(end))
	}
	if err != nil {
		t.Failf("chain of %d blocks is not made: %v", n, err)
		t.Stop()
	}
	return w
}

// hash of the block at the index.
func (c *chain) hash(i int) crypto.Hash {
	if i == 0 {
		return c.w.M.Genesis.Hash
	}
	return c.list[i-1].Hash
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }
func (discard) Sync() error                 { return nil }

// logger writes everything to nowhere.
func logger() *zap.Logger {
	enc := zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig())
	return zap.New(zapcore.NewCore(enc, discard{}, zapcore.DebugLevel))
}

type watchCore struct {
	zapcore.Core
	f func()
}

func (c watchCore) With(f []zapcore.Field) zapcore.Core { return watchCore{c.Core.With(f), c.f} }

func (c watchCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}

func (c watchCore) Write(e zapcore.Entry, f []zapcore.Field) error {
	c.f()
	return c.Core.Write(e, f)
}

// watching is a logger that calls f at every message.
func watching(f func()) *zap.Logger {
	return zap.New(watchCore{logger().Core(), f})
}

func newNode(w *sim.World, addr string) *p2p.Node {
	n := p2p.NewNode(w.BC, p2p.HostConfig{Network: w.Net, BindAddr: addr}, logger())
	return &n
}

// server is a running node.
type server struct {
	n      *p2p.Node
	addr   string
	port   int
	cancel context.CancelFunc
	done   chan error
}

// start runs the node on a free port.
func start(t *mon.T, w *sim.World) *server {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp4", "127.0.0.1:0")
		if err != nil {
			t.Failf("no loopback: %v", err)
			t.Stop()
		}
		addr := l.Addr().(*net.TCPAddr)
		_ = l.Close()
		s := &server{addr: addr.String(), port: addr.Port, done: make(chan error, 1)}
		s.n = newNode(w, s.addr)
		ctx, cancel := context.WithCancel(context.Background())
		s.cancel = cancel
		go func() { s.done <- s.n.Run(ctx) }()
		for j := 0; j < 200; j++ {
			select {
			case err := <-s.done:
				if strings.Contains(fmt.Sprint(err), "in use") {
					j = 1000
					continue
				}
				t.Failf("node stops at once: %v", err)
				t.Stop()
			default:
			}
			if j > 200 {
				break
			}
			if listening(s.port) {
				return s
			}
			time.Sleep(20 * time.Millisecond)
		}
		cancel()
	}
	t.Failf("node does not listen")
	t.Stop()
	return nil
}

// stopLimit is how long the node may take to stop: it waits up to five seconds for a connection and one more after it.
const stopLimit = 20 * time.Second

// stop ends the node and checks that it ends.
func (s *server) stop(t *mon.T) {
	s.cancel()
	from := time.Now()
	select {
	case err := <-s.done:
		if err != nil {
			t.Failf("node ends with %v", err)
		}
	case <-time.After(stopLimit):
		t.Failf("node does not stop in %v\n%s", stopLimit, stacks("go-karbo/p2p"))
		return
	}
	t.Count("nodes stopped", 1)
	if time.Since(from) > 10*time.Second {
		t.Count("slow stops", 1)
	}
}

// sockets counts sockets with the local port by the state.
func sockets(port int) map[string]int {
	r := map[string]int{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n")[1:] {
			p := strings.Fields(l)
			if len(p) < 4 {
				continue
			}
			k := strings.LastIndex(p[1], ":")
			if v, err := strconv.ParseUint(p[1][k+1:], 16, 32); err == nil && int(v) == port {
				r[p[3]]++
			}
		}
	}
	return r
}

const (
	tcpEstablished = "01"
	tcpCloseWait   = "08"
	tcpListen      = "0A"
)

func listening(port int) bool { return sockets(port)[tcpListen] > 0 }

// client is the other side of a connection to the node.
type client struct {
	net.Conn
	r *rand.Rand
}

func dial(t *mon.T, s *server, r *rand.Rand) *client {
	c, err := net.DialTimeout("tcp4", s.addr, 5*time.Second)
	if err != nil {
		t.Failf("node takes no connection: %v", err)
		t.Stop()
	}
	return &client{c, r}
}

// send writes the packets in pieces.
func (c *client) send(fs ...frame) error {
	var b []byte
	for _, f := range fs {
		b = append(b, f.bytes()...)
	}
	return c.bytes(b)
}

func (c *client) bytes(b []byte) error {
	_ = c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	step := pieces(c.r)
	for i := 0; len(b) > 0; i++ {
		k := min(step(), len(b))
		if i > 30 {
			k = len(b)
		}
		if _, err := c.Write(b[:k]); err != nil {
			return err
		}
		b = b[k:]
		if i < 10 && c.r.Intn(3) == 0 {
			time.Sleep(time.Duration(c.r.Intn(3000)) * time.Microsecond)
		}
	}
	return nil
}

// answer waits for the response to the command.
func (c *client) answer(cmd uint32, limit time.Duration) (frame, error) {
	end := time.Now().Add(limit)
	for {
		f, err := recv(c, time.Until(end))
		if err != nil {
			return f, err
		}
		if f.cmd == cmd {
			return f, nil
		}
	}
}

// dropped tells if the node ends the connection.
func (c *client) dropped(limit time.Duration) (extra []byte, ok bool) {
	_ = c.SetReadDeadline(time.Now().Add(limit))
	b, err := io.ReadAll(c)
	if e, is := err.(net.Error); is && e.Timeout() {
		return b, false
	}
	return b, true
}

// hello is a request of a handshake.
type hello struct {
	net     [16]byte
	version byte
	id      uint64
	port    uint32
	height  uint32
	top     crypto.Hash
}

func (h hello) payload() []byte {
	return ref.Obj("", ref.Obj("node_data", ref.Bin("network_id", h.net[:]), ref.U("version", ref.KVUint8, uint64(h.version)),
		ref.U("peer_id", ref.KVUint64, h.id), ref.U("local_time", ref.KVUint64, sim.Now()), ref.U("my_port", ref.KVUint32, uint64(h.port))),
		syncData(h.height, h.top)).Doc()
}

func syncData(height uint32, top crypto.Hash) *ref.Node {
	return ref.Obj("payload_data", ref.U("current_height", ref.KVUint32, uint64(height)), ref.Bin("top_id", top[:]))
}

func timedSync(height uint32, top crypto.Hash) []byte {
	return ref.Obj("", syncData(height, top)).Doc()
}

func helloOf(n *config.Network, r *rand.Rand, height uint32, top crypto.Hash) hello {
	return hello{net: n.NetworkID, version: n.P2PCurrentVersion, id: uint64(r.Int63()) | 1, port: uint32(1024 + r.Intn(60000)), height: height, top: top}
}

// decode reads the document of the payload.
func decode(b []byte, v interface{}) (interface{}, bool) {
	x, ok := ref.KVDecode(b, reflect.TypeOf(v))
	if !ok {
		return nil, false
	}
	return x.Interface(), true
}

func objects(height uint32, blocks [][]byte, raws [][][]byte) []byte {
	a := ref.Arr("blocks", ref.KVObject)
	for i, b := range blocks {
		var txs *ref.Node
		if len(raws[i]) > 0 {
			txs = ref.Arr("txs", ref.KVBinary)
			for _, x := range raws[i] {
				txs.Items = append(txs.Items, ref.Bin("", x))
			}
		}
		a.Items = append(a.Items, ref.Obj("", ref.Bin("block", b), txs))
	}
	return ref.Obj("", a, ref.U("current_blockchain_height", ref.KVUint32, uint64(height))).Doc()
}

func cat(hs []crypto.Hash) (b []byte) {
	for i := range hs {
		b = append(b, hs[i][:]...)
	}
	return
}

func chainEntry(start, total uint32, hs []crypto.Hash) []byte {
	return ref.Obj("", ref.U("start_height", ref.KVUint32, uint64(start)), ref.U("total_height", ref.KVUint32, uint64(total)), ref.Bin("m_block_ids", cat(hs))).Doc()
}

func requestChain(hs []crypto.Hash) []byte { return ref.Obj("", ref.Bin("block_ids", cat(hs))).Doc() }

// ipBytes are octets of the address in a peer entry.
func ipBytes(a p2p.NetworkAddress) (b [4]byte) {
	binary.LittleEndian.PutUint32(b[:], a.IP)
	return
}

func someAddress(r *rand.Rand) p2p.NetworkAddress {
	return p2p.NetworkAddress{IP: gen.U32(r), Port: uint32(r.Intn(65536))}
}

// chainOK compares the head of the chain and its links with the list of entries.
func chainIs(w *sim.World, c *chain, n int) string {
	if h := w.BC.Height(); h != uint32(n)+1 {
		return fmt.Sprintf("height is %d, want %d", h, n+1)
	}
	for i := 0; i <= n; i++ {
		h, err := w.Store.HashAtIndex(uint32(i))
		if err != nil || h == nil || *h != c.hash(i) {
			return fmt.Sprintf("block at %d is wrong", i)
		}
	}
	return ""
}

func idOf(b *cryptonote.Block) crypto.Hash { return crypto.Hash(cn.ID(b)) }

// welcome is a response to a handshake.
func welcome(h hello, peers []byte) []byte {
	return ref.Obj("", ref.Obj("node_data", ref.Bin("network_id", h.net[:]), ref.U("version", ref.KVUint8, uint64(h.version)),
		ref.U("peer_id", ref.KVUint64, h.id), ref.U("local_time", ref.KVUint64, sim.Now()), ref.U("my_port", ref.KVUint32, uint64(h.port))),
		syncData(h.height, h.top), ref.Bin("local_peerlist", peers)).Doc()
}

func keccak(b []byte) [32]byte { return ref.Keccak(b) }
