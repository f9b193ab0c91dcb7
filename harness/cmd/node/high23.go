package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/sim"
)

// tall is a storage that lacks the early blocks, but gives hashes of them.
type tall struct {
	cryptonote.Storage
	low uint32 // index of the first block it has after the genesis
}

func farHash(i uint32) crypto.Hash {
	var b [8]byte
	binary.LittleEndian.PutUint32(b[:], i)
	copy(b[4:], "far ")
	return crypto.Hash(keccak(b[:]))
}

func (s *tall) HashAtIndex(i uint32) (*crypto.Hash, error) {
	if i > 0 && i < s.low {
		h := farHash(i)
		return &h, nil
	}
	return s.Storage.HashAtIndex(i)
}

// high23 is a node with a high chain that lacks some blocks of an honest peer.
func high23(t *mon.T) {
	r := t.Rng
	at := []uint32{65533, 65534, 65535, 65536, 65537, 131072, 262144, 262145, 524289, 1 << 20, 1<<20 + 1, 1<<24 - 1, 1 << 24, 1 << 30, 1<<31 - 2, 1 << 31, uint32(2000 + r.Intn(900000))}
	top := at[t.I%len(at)]
	var st *tall
	w, err := sim.NewWorld(rand.New(rand.NewSource(r.Int63())), sim.Options{Top: top, End: sim.Now() - 100000, Wrap: func(s cryptonote.Storage) cryptonote.Storage {
		st = &tall{Storage: s}
		return st
	}})
	if err != nil {
		t.Failf("world: %v", err)
		return
	}
	st.low = w.M.List[0].Index
	if st.low == 0 {
		st.low = w.M.List[1].Index
	}
	src, err := w.Twin(rand.New(rand.NewSource(r.Int63())), nil, nil)
	if err != nil {
		t.Failf("world: %v", err)
		return
	}
	far := crypto.Hash(gen.B32(r))
	for _, x := range []*sim.World{w, src} {
		if err := x.BC.Checkpoints.AddCheckpoint(top+zoneEnd, far); err != nil {
			t.Failf("checkpoint: %v", err)
			return
		}
		x.M.Point(top+zoneEnd, far)
	}
	k := []int{1, 2, 3, 127, 128, 129, 130, 1 + r.Intn(150)}[r.Intn(8)]
	old := append([]sim.Entry{}, w.M.List...)
	hashAt := func(i uint32) crypto.Hash { // before the synchronization
		switch {
		case i == 0:
			return w.M.Genesis.Hash
		case i < st.low:
			return farHash(i)
		}
		return old[sort.Search(len(old), func(j int) bool { return old[j].Index >= i })].Hash
	}
	news := map[crypto.Hash]rblock{}
	hs := []crypto.Hash{hashAt(top)}
	for i := 0; i < k; i++ {
		var x *sim.Candidate
		if r.Intn(6) == 0 {
			x = draft(t, src, src.NewTx(sim.TxOpt{Plain: true, Inputs: 1}))
		} else {
			x = draft(t, src)
		}
		if err := add(src, x); err != nil {
			t.Failf("block of the peer: %v", err)
			return
		}
		e := src.M.Top()
		news[e.Hash] = rblock{e.Hash, x.B.Serialize(), x.Raw}
		hs = append(hs, e.Hash)
	}
	t.SetDesc("chain with the top %d, %d blocks are missing", top, k)
	fail := func(f string, a ...interface{}) {
		t.Failf("chain with the top %d, peer with %d more blocks: %s", top, k, fmt.Sprintf(f, a...))
		t.Stop()
	}

	node := newNode(w, "")
	con := &tap{}
	peer := p2p.NewPeer(logger().Sugar(), lp(con), someAddress(r), true)
	if err := handle(node, peer, false, msg.CommandHandshake, helloOf(w.Net, r, top+1+uint32(k), hs[k]).payload()); err != nil {
		fail("handshake: %v", err)
	}
	sent, err := parseFrames(con.taken())
	if err != nil || len(sent) != 1 {
		fail("%d packets after the handshake, %v", len(sent), err)
	}
	if y, bad := readReply(sent[0], msg.CommandHandshake, w.Net); bad != "" || y.height != top+1 || y.top != hs[0] {
		fail("the node says its height is %d and the top is %v %s", y.height, y.top, bad)
	}
	if s := view(peer).state; s != stSyncRequired {
		fail("state of the peer is %d", s)
	}
	setState(peer, stSynchronizing)
	if err := node.NotifyRequestChain(peer); err != nil {
		fail("request of the chain: %v", err)
	}
	first := true
	want := 1
	for steps := 0; ; steps++ {
		fs, err := parseFrames(con.taken())
		if err != nil {
			fail("broken packets: %v", err)
		}
		if len(fs) == 0 {
			break
		}
		if len(fs) > 1 || steps > 100 {
			fail("%d packets at step %d", len(fs), steps)
		}
		f := fs[0]
		var a frame
		switch f.cmd {
		case msg.NoticeChainRequest:
			v, ok := decode(f.payload, p2p.NotificationRequestChain{})
			if !ok || !first {
				fail("request of the chain: %v", f)
			}
			first = false
			ids := v.(p2p.NotificationRequestChain).Blocks
			ask := []crypto.Hash{hs[0]}
			for i := uint64(1); i < uint64(top); i *= 2 {
				ask = append(ask, hashAt(top-uint32(i)))
			}
			ask = append(ask, hashAt(0))
			if fmt.Sprint(ids) != fmt.Sprint(ask) {
				fail("request of the chain has %d hashes, %d are expected", len(ids), len(ask))
			}
			a = notice(msg.NoticeChainEntry, chainEntry(top, top+1+uint32(k), hs))
			t.Count("requests of high chains", 1)
		case msg.NoticeGetObjects:
			v, ok := decode(f.payload, p2p.NotificationRequestGetObjects{})
			if !ok {
				fail("request of blocks: %v", f)
			}
			ids := v.(p2p.NotificationRequestGetObjects).Blocks
			var bs []rblock
			for _, h := range ids {
				if want > k || h != hs[want] {
					fail("block that is not the next one, %d, is asked", want)
				}
				bs = append(bs, news[h])
				want++
			}
			if len(ids) == 0 || len(ids) > batchLimit {
				fail("%d blocks are asked", len(ids))
			}
			a = notice(msg.NoticeObjects, pack(int(top)+1+k, bs))
		default:
			fail("unexpected packet %v", f)
		}
		if err := handle(node, peer, true, a.cmd, a.payload); err != nil {
			fail("honest answer %d: %v", a.cmd, err)
		}
	}
	if h := w.BC.Height(); h != top+1+uint32(k) || *w.BC.TopBlock().Hash() != hs[k] {
		fail("the node stops at the height %d", h)
	}
	if v := view(peer); v.state != stNormal || len(v.needed) > 0 || len(v.requested) > 0 {
		fail("state of the peer is %d, %d blocks are needed, %d requested still", v.state, len(v.needed), len(v.requested))
	}
	if err := handle(node, peer, false, msg.CommandTimedSync, timedSync(top+1+uint32(k), hs[k])); err != nil {
		fail("timed sync: %v", err)
	}
	sent, err = parseFrames(con.taken())
	if err != nil || len(sent) != 1 {
		fail("%d packets after the timed sync, %v", len(sent), err)
	}
	if y, bad := readReply(sent[0], msg.CommandTimedSync, w.Net); bad != "" || y.height != top+1+uint32(k) || y.top != hs[k] {
		fail("the node says its height is %d and the top is %v %s", y.height, y.top, bad)
	}
	t.Count("high chains synchronized", 1)
	t.Distinct("high", top, k)
}
