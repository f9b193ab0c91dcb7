package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/gen"
	"verifharness/mon"
	"verifharness/msg"
	"verifharness/ref"
)

// someFrame is any packet with a right header.
func someFrame(r *rand.Rand) frame {
	f := frame{cmd: gen.U32(r), ret: r.Intn(2) == 0, flags: gen.U32(r), code: int32(gen.U32(r))}
	switch r.Intn(3) {
	case 0:
		f.flags = uint32(1 + r.Intn(2))
		f.cmd = uint32(1001 + r.Intn(3))
	case 1:
		f.flags = uint32(r.Intn(4))
	}
	switch r.Intn(8) {
	case 0:
	case 1:
		f.payload = gen.Bytes(r, headSize+r.Intn(3)-1)
	case 2:
		f.payload = gen.Bytes(r, 1000+r.Intn(70000))
	case 3: // looks like a packet itself
		f.payload = notice(2003, gen.Bytes(r, r.Intn(30))).bytes()
	default:
		f.payload = gen.Bytes(r, r.Intn(400))
	}
	return f
}

// same compares what is read with the packet.
func same(f frame, cmd uint32, notify, rsp bool, payload []byte) string {
	switch {
	case f.cmd != cmd:
		return fmt.Sprintf("command is %d", cmd)
	case notify == f.ret:
		return fmt.Sprintf("notify is %v", notify)
	case rsp != (f.flags&2 != 0):
		return fmt.Sprintf("response is %v", rsp)
	case !bytes.Equal(f.payload, payload):
		return fmt.Sprintf("payload is %s, want %s", mon.Hex(payload), mon.Hex(f.payload))
	}
	return ""
}

// pong is the answer to the ping.
func pong(r *rand.Rand) (p2p.PingResponse, []byte) {
	v := p2p.PingResponse{Status: string(gen.Bytes(r, r.Intn(100))), PeerID: gen.U64(r)}
	return v, ref.Obj("", ref.Bin("status", []byte(v.Status)), ref.U("peer_id", ref.KVUint64, v.PeerID)).Doc()
}

func c04(c *mon.Ctx) {
	c.Rule("A case is a stream of packets over a connection in memory or over loopback TCP, cut, delayed, truncated or damaged in some way, or a group of concurrent senders. What is delivered, refused and written is compared with the reference header and document. Non trivial: the stream has at least one whole packet.")

	c.Par("write", c.N(3000, 60000), func(t *mon.T) {
		r := t.Rng
		m := msg.Gen(r, t.I, r.Intn(6) == 0)
		want := m.Node.Doc()
		id := gen.U32(r)
		con := &tap{}
		p := lp(con)
		var f frame
		var err error
		kind := r.Intn(3)
		cut := -1
		if r.Intn(5) == 0 {
			cut = r.Intn(headSize + len(want))
			con.fail = func(n int) (int, error) { return min(cut, n), errCut }
		}
		switch kind {
		case 0:
			f = frame{cmd: id, flags: 1, payload: want}
			err = p.Notify(id, m.Value)
		case 1:
			f = frame{cmd: id, flags: 2, code: int32(gen.U32(r)), payload: want}
			err = p.Reply(id, m.Value, f.code)
		case 2:
			f = frame{cmd: id, ret: true, flags: 1, payload: want}
			v, doc := pong(r)
			rest := someFrame(r).bytes()
			con.in = append(frame{cmd: id, flags: 2, code: 1, payload: doc}.bytes(), rest...)
			con.step = pieces(r)
			var got p2p.PingResponse
			err = p.Invoke(id, m.Value, &got)
			if err == nil && !reflect.DeepEqual(got, v) {
				t.Failf("invoke: answer is %+v, want %+v", got, v)
			}
			if err == nil && !bytes.Equal(con.in, rest) {
				t.Failf("invoke: it takes %d bytes, the answer has %d", con.used, headSize+len(doc))
			}
			t.Count("invocations", 1)
		}
		out := con.taken()
		all := f.bytes()
		if cut >= 0 {
			if err == nil {
				t.Failf("%s kind %d: connection breaks after %d bytes but there is no error", m.Name, kind, cut)
			}
			if !bytes.HasPrefix(all, out) {
				t.Failf("%s kind %d: wrong bytes before the connection breaks", m.Name, kind)
			}
			t.Count("broken writes", 1)
			t.Distinct("cut", cut)
			return
		}
		if err != nil {
			t.Failf("%s kind %d: %v", m.Name, kind, err)
			return
		}
		if !bytes.Equal(out, all) {
			t.Failf("%s kind %d: written %s, want %s", m.Name, kind, mon.Hex(out), mon.Hex(all))
		}
		t.Count("packets written", 1)
		t.Distinct("packet", string(all[:min(len(all), 200)]))
	})

	c.Par("invoke", c.N(3000, 60000), func(t *mon.T) {
		r := t.Rng
		id := gen.U32(r)
		v, doc := pong(r)
		f := frame{cmd: id, flags: 2, code: int32(gen.U32(r)), payload: doc}
		ok := true
		switch what := r.Intn(9); what {
		case 0:
			f.cmd = id ^ 1<<uint(r.Intn(32))
			ok = false
		case 1:
			f.flags = gen.U32(r) &^ 2
			ok = false
		case 2:
			f.flags |= gen.U32(r)
		case 3:
			f.ret = true
		case 4: // the document is damaged
			f.payload = append([]byte{}, doc...)
			switch r.Intn(3) {
			case 0:
				f.payload = f.payload[:r.Intn(len(doc))]
			case 1:
				f.payload[r.Intn(9)] ^= byte(1 + r.Intn(255))
			case 2:
				f.payload = nil
			}
			var x reflect.Value
			x, ok = ref.KVDecode(f.payload, reflect.TypeOf(v))
			if ok {
				v = x.Interface().(p2p.PingResponse)
			}
		case 5: // the answer of another kind
			f.payload = ref.Obj("", ref.Bin("status", []byte("OK"))).Doc()
			v = p2p.PingResponse{Status: "OK"}
			_, ok = ref.KVDecode(f.payload, reflect.TypeOf(v))
		}
		con := &tap{in: f.bytes(), step: pieces(r), last: r.Intn(2) == 0}
		if r.Intn(12) == 0 {
			con.in = con.in[:r.Intn(len(con.in))]
			ok = false
		}
		var got p2p.PingResponse
		var err error
		err = lp(con).Invoke(id, p2p.PingRequest{}, &got)
		if (err == nil) != ok {
			t.Failf("invoke %d: answer (%v) %s must be taken %v, error is %v", id, f, mon.Hex(f.payload), ok, err)
		}
		if ok && err == nil && !reflect.DeepEqual(got, v) {
			t.Failf("invoke: answer is %+v, want %+v", got, v)
		}
		t.Count(map[bool]string{true: "answers taken", false: "answers refused"}[ok], 1)
		t.Distinct("answer", id)
	})

	if haveRead {
		c.Par("stream", c.N(2500, 50000), func(t *mon.T) {
			r := t.Rng
			var fs []frame
			var in []byte
			for i := r.Intn(12); i >= 0; i-- {
				f := someFrame(r)
				fs = append(fs, f)
				b := f.bytes()
				if f.ret && r.Intn(3) == 0 { // any value but zero asks for the data
					b[16] = byte(1 + r.Intn(255))
				}
				in = append(in, b...)
			}
			con := &tap{in: in, step: pieces(r), last: r.Intn(2) == 0}
			p := lp(con)
			at := 0
			var kept [][]byte
			for i, f := range fs {
				cmd, no, rsp, b, err := readFrame(p)
				if err != nil {
					t.Failf("packet %d (%v): %v", i, f, err)
					return
				}
				if s := same(f, cmd, no, rsp, b); s != "" {
					t.Failf("packet %d (%v): %s", i, f, s)
					return
				}
				at += headSize + len(f.payload)
				if con.used != at {
					t.Failf("packet %d (%v): %d bytes of the stream are taken, want %d", i, f, con.used, at)
					return
				}
				kept = append(kept, b)
				t.Count("packets read", 1)
			}
			for i, f := range fs { // what was delivered is not changed by packets after it
				if !bytes.Equal(kept[i], f.payload) {
					t.Failf("packet %d (%v): its payload is %s after all packets are read, want %s", i, f, mon.Hex(kept[i]), mon.Hex(f.payload))
					return
				}
			}
			if _, _, _, _, err := readFrame(p); err != io.EOF {
				t.Failf("after the last packet there must be the end of the stream, got %v", err)
			}
			t.Distinct("stream", string(in[:min(len(in), 300)]))
		})

		c.Par("cut", c.N(400, 6000), func(t *mon.T) {
			r := t.Rng
			fs := []frame{someFrame(r), someFrame(r)}
			if len(fs[0].payload) > 500 {
				fs[0].payload = fs[0].payload[:500]
			}
			if len(fs[1].payload) > 500 {
				fs[1].payload = fs[1].payload[:500]
			}
			in := append(fs[0].bytes(), fs[1].bytes()...)
			first := headSize + len(fs[0].payload)
			errBroken := errors.New("reset")
			for cut := 0; cut < len(in); cut++ {
				con := &tap{in: in[:cut], step: pieces(r), last: r.Intn(2) == 0}
				reset := r.Intn(3) == 0
				if reset {
					con.end = errBroken
				}
				p := lp(con)
				_, _, _, b, err := readFrame(p)
				whole := cut >= first
				if whole != (err == nil) && !(reset && con.last && cut == first && err != nil) {
					t.Failf("stream of %d bytes with a packet of %d: error %v", cut, first, err)
					return
				}
				if whole && err == nil {
					if !bytes.Equal(b, fs[0].payload) {
						t.Failf("stream of %d bytes with a packet of %d: wrong payload", cut, first)
						return
					}
					_, _, _, _, err = readFrame(p)
					if err == nil {
						t.Failf("packet of %d bytes is delivered, but there are %d of them", len(in)-first, cut-first)
						return
					}
				}
				if !reset && (cut == 0 || cut == first) && err != io.EOF {
					t.Failf("end between packets: %v", err)
					return
				}
				t.Count("cuts", 1)
			}
			t.Distinct("cut stream", string(in[:min(len(in), 300)]))
		})

		c.Par("corrupt", c.N(4000, 60000), func(t *mon.T) {
			r := t.Rng
			f := someFrame(r)
			b := f.bytes()
			sig, size := uint64(signature), uint64(len(f.payload))
			switch r.Intn(3) {
			case 0:
				sig ^= 1 << uint(t.I%64)
			case 1:
				size = []uint64{maxPacket + 1, maxPacket + 2, 1 << 27, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + uint64(len(f.payload)), 1<<40 + uint64(len(f.payload)), 1 << 62, 1 << 63,
					1<<63 | uint64(len(f.payload)), 1<<64 - 1, 1<<64 - headSize, 1<<32 + maxPacket}[r.Intn(14)]
			case 2:
				sig = []uint64{0, 1<<64 - 1, 0x0101010101012102, 0x0121010101010101, 0x0101010101010101, gen.U64(r)}[r.Intn(6)]
			}
			if sig == signature && size <= maxPacket {
				return
			}
			copy(b, head(sig, size, f.ret, f.cmd, f.code, f.flags, 1))
			con := &tap{in: append(b, gen.Bytes(r, 100)...), step: pieces(r)}
			var err error
			_, _, _, _, err = readFrame(lp(con))
			if err == nil {
				t.Failf("header %x is taken", b[:headSize])
			}
			t.Count("headers refused", 1)
			t.Distinct("header", string(b[:16]))
		})

		c.Seq("largest", 2, func(t *mon.T) {
			// The largest packet is delivered, the size above it is refused.
			n := maxPacket - t.I
			b := append(head(signature, uint64(n), true, 7, 0, 1, 1), make([]byte, n)...)
			b[len(b)-1] = 5
			con := &tap{in: b}
			cmd, _, _, p, err := readFrame(lp(con))
			if err != nil || cmd != 7 || len(p) != n || p[n-1] != 5 {
				t.Failf("packet of %d bytes: %v, payload %d bytes", n, err, len(p))
			}
			t.Count("largest packets", 1)
			t.Distinct("largest", n)
		})
		c.Require("packets read", 1000)
		c.Require("cuts", 10000)
		c.Require("headers refused", 1000)
	}

	// Damaged headers as answers, without the accessor of the reader.
	c.Par("answers", c.N(1500, 30000), func(t *mon.T) {
		r := t.Rng
		var vs []p2p.PingResponse
		var in []byte
		n := 1 + r.Intn(6)
		id := gen.U32(r)
		for i := 0; i < n; i++ {
			v, doc := pong(r)
			vs = append(vs, v)
			in = append(in, response(id+uint32(i), doc).bytes()...)
		}
		bad := -1
		start := len(in)
		if r.Intn(2) == 0 {
			bad = n
			_, doc := pong(r)
			f := response(id+uint32(n), doc).bytes()
			if r.Intn(2) == 0 {
				f[r.Intn(8)] ^= byte(1 + r.Intn(255))
			} else {
				binary.LittleEndian.PutUint64(f[8:], maxPacket+1+uint64(r.Int63()))
			}
			in = append(in, f...)
			n++
		}
		con := &tap{in: in, step: pieces(r), last: r.Intn(2) == 0}
		p := lp(con)
		for i := 0; i < n; i++ {
			var got p2p.PingResponse
			var err error
			err = p.Invoke(id+uint32(i), p2p.PingRequest{}, &got)
			if i == bad {
				if err == nil {
					t.Failf("answer with the header %x is taken", in[start:start+16])
				}
				continue
			}
			if err != nil || !reflect.DeepEqual(got, vs[i]) {
				t.Failf("answer %d: %v, got %+v, want %+v", i, err, got, vs[i])
				return
			}
			t.Count("answers in a row", 1)
		}
		t.Distinct("answers", id)
	})

	// Concurrent senders: packets come whole, those of one sender in order.
	senders := func(t *mon.T, p *p2p.LevinProtocol, n, m, large int) {
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			g := g
			seed := t.Rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < m; i++ {
					id := uint32(g)<<16 | uint32(i)
					v := p2p.PingResponse{Status: string(bytes.Repeat([]byte{byte(g)}, r.Intn(300))), PeerID: uint64(id)}
					if r.Intn(60) == 0 {
						v.Status = string(bytes.Repeat([]byte{byte(g)}, 10000+r.Intn(20000)))
					}
					if large > 0 && r.Intn(3) > 0 {
						v.Status = string(bytes.Repeat([]byte{byte(g)}, large/8+r.Intn(large)))
						t.Count("large packets of concurrent senders", 1)
					}
					var err error
					if i%2 == 0 {
						err = p.Notify(id, v)
					} else {
						err = p.Reply(id, v, int32(i))
					}
					if err != nil {
						t.Failf("sender %d, message %d: %v", g, i, err)
						return
					}
				}
			}()
		}
		wg.Wait()
	}
	judge := func(t *mon.T, fs []frame, n, m, large int) {
		next := make([]uint32, n)
		if len(fs) != n*m {
			t.Failf("%d packets come, %d were sent", len(fs), n*m)
			return
		}
		changes := 0
		for k, f := range fs {
			g, i := int(f.cmd>>16), f.cmd&0xffff
			if g >= n || i != next[g] {
				t.Failf("packet %d is the message %d of the sender %d", k, i, g)
				return
			}
			next[g]++
			x, ok := ref.KVDecode(f.payload, reflect.TypeOf(p2p.PingResponse{}))
			if !ok {
				t.Failf("packet %d is damaged: %s", k, mon.Hex(f.payload))
				return
			}
			v := x.Interface().(p2p.PingResponse)
			if v.PeerID != uint64(f.cmd) || bytes.Count([]byte(v.Status), []byte{byte(g)}) != len(v.Status) {
				t.Failf("packet %d of the sender %d is mixed up", k, g)
				return
			}
			if (i%2 == 1) != (f.flags&2 != 0) || f.ret || i%2 == 1 && f.code != int32(i) {
				t.Failf("packet %d: wrong header: %v", k, f)
				return
			}
			if k > 0 && fs[k-1].cmd>>16 != f.cmd>>16 {
				changes++
			}
			t.Count("packets of concurrent senders", 1)
		}
		t.Count("sender changes in streams", int64(changes))
		if large > 0 {
			t.Count("sender changes around large packets", int64(changes))
		}
		t.Distinct("interleaving", fmt.Sprint(changes, fs[0].cmd, fs[len(fs)/2].cmd))
	}
	concurrent := func(t *mon.T, n, m, large int) {
		r := t.Rng
		switch t.I % 3 {
		case 0:
			con := &tap{pause: yields(rand.New(rand.NewSource(r.Int63())))}
			senders(t, lp(con), n, m, large)
			fs, err := parseFrames(con.taken())
			if err != nil {
				t.Failf("stream of %d senders: %v", n, err)
				return
			}
			judge(t, fs, n, m, large)
		case 1, 2:
			var a, b net.Conn
			if t.I%3 == 1 {
				a, b = net.Pipe()
			} else {
				a, b = tcpPair(t)
			}
			var fs []frame
			var bad error
			done := make(chan bool)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer close(done)
				if haveRead && t.I%2 == 0 {
					step := pieces(rr)
					if large > 0 {
						step = func() int { return 1 + rr.Intn(large/10) }
					}
					p := lp(&slowConn{Conn: b, step: step})
					for {
						cmd, no, rsp, pl, err := readFrame(p)
						if err == io.EOF {
							return
						}
						if err != nil {
							bad = err
							_, _ = io.Copy(io.Discard, b)
							return
						}
						f := frame{cmd: cmd, ret: !no, payload: pl, code: int32(cmd & 0xffff)}
						if rsp {
							f.flags = 2
						}
						fs = append(fs, f)
					}
				}
				var all []byte
				buf := make([]byte, 5000+large/20)
				for {
					k, err := b.Read(buf[:1+rr.Intn(len(buf))])
					all = append(all, buf[:k]...)
					if err != nil {
						break
					}
				}
				fs, bad = parseFrames(all)
			}()
			senders(t, lp(a), n, m, large)
			_ = a.Close()
			<-done
			_ = b.Close()
			if bad != nil {
				t.Failf("stream of %d senders: %v", n, bad)
				return
			}
			judge(t, fs, n, m, large)
		}
	}
	c.ParL("senders", c.N(60, 900), 4, 120*time.Second, func(t *mon.T) { concurrent(t, 2+t.Rng.Intn(6), 10+t.Rng.Intn(60), 0) })
	c.ParL("large senders", c.N(12, 180), 3, 120*time.Second, func(t *mon.T) {
		concurrent(t, 2+t.Rng.Intn(3), 3+t.Rng.Intn(4), []int{200000, 1500000, 4000000}[t.I/3%3])
	})
	c.Require("large packets of concurrent senders", 30)
	c.Require("sender changes around large packets", 20)

	c.Require("packets written", 1000)
	c.Require("broken writes", 100)
	c.Require("answers taken", 500)
	c.Require("answers refused", 500)
	c.Require("packets of concurrent senders", 1000)
	c.Require("sender changes in streams", 500)
}

// slowConn gives what comes in pieces.
type slowConn struct {
	net.Conn
	step func() int
}

func (c *slowConn) Read(p []byte) (int, error) {
	n := c.step()
	if n == 0 {
		return 0, nil
	}
	return c.Conn.Read(p[:min(n, len(p))])
}

func tcpPair(t *mon.T) (a, b net.Conn) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		t.Failf("no loopback: %v", err)
		t.Stop()
	}
	defer l.Close()
	got := make(chan net.Conn, 1)
	go func() {
		x, err := l.Accept()
		if err != nil {
			close(got)
			return
		}
		got <- x
	}()
	if a, err = net.Dial("tcp4", l.Addr().String()); err != nil {
		t.Failf("no loopback: %v", err)
		t.Stop()
	}
	b = <-got
	return
}
