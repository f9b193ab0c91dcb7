package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/p2p"
)

const (
	headSize  = 33
	maxPacket = 100000000
	signature = 0x0101010101012101
)

// frame is one packet of the levin protocol.
type frame struct {
	cmd     uint32
	ret     bool // the sender waits for the data
	flags   uint32
	code    int32
	payload []byte
}

func (f frame) String() string {
	return fmt.Sprintf("command %d ret %v flags %x code %d payload %d bytes", f.cmd, f.ret, f.flags, f.code, len(f.payload))
}

func head(sig, size uint64, ret bool, cmd uint32, code int32, flags, version uint32) []byte {
	b := make([]byte, headSize)
	binary.LittleEndian.PutUint64(b, sig)
	binary.LittleEndian.PutUint64(b[8:], size)
	if ret {
		b[16] = 1
	}
	binary.LittleEndian.PutUint32(b[17:], cmd)
	binary.LittleEndian.PutUint32(b[21:], uint32(code))
	binary.LittleEndian.PutUint32(b[25:], flags)
	binary.LittleEndian.PutUint32(b[29:], version)
	return b
}

func (f frame) bytes() []byte {
	return append(head(signature, uint64(len(f.payload)), f.ret, f.cmd, f.code, f.flags, 1), f.payload...)
}

func request(id uint32, payload []byte) frame {
	return frame{cmd: id, ret: true, flags: 1, payload: payload}
}
func notice(id uint32, payload []byte) frame { return frame{cmd: id, flags: 1, payload: payload} }
func response(id uint32, payload []byte) frame {
	return frame{cmd: id, flags: 2, code: 1, payload: payload}
}

// parseFrame reads a packet from the start of the bytes.
func parseFrame(b []byte) (f frame, rest []byte, err error) {
	if len(b) < headSize {
		return f, b, io.ErrShortBuffer
	}
	if s := binary.LittleEndian.Uint64(b); s != signature {
		return f, b, fmt.Errorf("signature is %x", s)
	}
	n := binary.LittleEndian.Uint64(b[8:])
	if n > maxPacket {
		return f, b, fmt.Errorf("size is %d", n)
	}
	if b[16] > 1 {
		return f, b, fmt.Errorf("return flag is %d", b[16])
	}
	if v := binary.LittleEndian.Uint32(b[29:]); v != 1 {
		return f, b, fmt.Errorf("protocol version is %d", v)
	}
	if uint64(len(b)-headSize) < n {
		return f, b, io.ErrShortBuffer
	}
	f = frame{cmd: binary.LittleEndian.Uint32(b[17:]), ret: b[16] == 1, code: int32(binary.LittleEndian.Uint32(b[21:])),
		flags: binary.LittleEndian.Uint32(b[25:]), payload: append([]byte{}, b[headSize:headSize+int(n)]...)}
	return f, b[headSize+int(n):], nil
}

// parseFrames reads all packets of the stream.
func parseFrames(b []byte) (fs []frame, err error) {
	for len(b) > 0 {
		var f frame
		if f, b, err = parseFrame(b); err != nil {
			return fs, fmt.Errorf("packet %d: %w", len(fs), err)
		}
		fs = append(fs, f)
	}
	return
}

// recv reads one packet from the connection.
func recv(c net.Conn, limit time.Duration) (f frame, err error) {
	_ = c.SetReadDeadline(time.Now().Add(limit))
	h := make([]byte, headSize)
	if _, err = io.ReadFull(c, h); err != nil {
		return
	}
	n := binary.LittleEndian.Uint64(h[8:])
	if n > maxPacket {
		return f, fmt.Errorf("size is %d", n)
	}
	b := append(h, make([]byte, n)...)
	if _, err = io.ReadFull(c, b[headSize:]); err != nil {
		return
	}
	f, _, err = parseFrame(b)
	return
}

var errCut = errors.New("connection is broken on purpose")

// tap is a connection in memory: reads give prepared bytes in pieces, written bytes are kept.
type tap struct {
	mu     sync.Mutex
	in     []byte
	step   func() int // size of the next piece, 0 for an empty read
	last   bool       // last piece comes with the end of the stream
	end    error      // what follows the prepared bytes
	used   int        // bytes taken
	out    []byte
	writes int
	fail   func(n int) (int, error) // decides about the write
	pause  func()
	closed bool
	addr   *net.TCPAddr
}

func (c *tap) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	end := c.end
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, end
	}
	n := len(c.in)
	if c.step != nil {
		n = c.step()
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	n = copy(p[:min(n, len(p))], c.in)
	c.in = c.in[n:]
	c.used += n
	if len(c.in) == 0 && c.last {
		return n, end
	}
	return n, nil
}

func (c *tap) Write(p []byte) (int, error) {
	if c.pause != nil {
		c.pause()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes++
	n, err := len(p), error(nil)
	if c.closed {
		n, err = 0, net.ErrClosed
	} else if c.fail != nil {
		n, err = c.fail(len(p))
	}
	c.out = append(c.out, p[:n]...)
	return n, err
}

func (c *tap) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	return nil
}

// taken gives what was written since the last call.
func (c *tap) taken() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	b := c.out
	c.out = nil
	return b
}

func (c *tap) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 32347} }
func (c *tap) RemoteAddr() net.Addr {
	if c.addr != nil {
		return c.addr
	}
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
}
func (c *tap) SetDeadline(t time.Time) error      { return nil }
func (c *tap) SetReadDeadline(t time.Time) error  { return nil }
func (c *tap) SetWriteDeadline(t time.Time) error { return nil }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// pieces makes a way to cut the stream.
func pieces(r *rand.Rand) func() int {
	switch r.Intn(6) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 1 << 30 }
	case 2:
		return func() int { return headSize - 1 + r.Intn(3) }
	case 3:
		m := 1 + r.Intn(20)
		return func() int { return 1 + r.Intn(m) }
	case 4:
		quiet := 0
		return func() int { // some reads give nothing
			if quiet < 20 && r.Intn(3) == 0 {
				quiet++
				return 0
			}
			quiet = 0
			return 1 + r.Intn(50)
		}
	}
	return func() int { return 1 + r.Intn(2000) }
}

func yields(r *rand.Rand) func() {
	var mu sync.Mutex
	return func() {
		mu.Lock()
		k := r.Intn(4)
		mu.Unlock()
		switch k {
		case 0:
			time.Sleep(time.Duration(1+k) * 20 * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
		}
	}
}

func lp(c net.Conn) *p2p.LevinProtocol { return &p2p.LevinProtocol{Conn: c} }
