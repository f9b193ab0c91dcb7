package main

import (
	"io"
	"net"
	"time"
)

// feed is a connection that gives prepared bytes in pieces and keeps what is written.
type feed struct {
	b       []byte
	step    int
	written []byte
}

func (f *feed) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if f.step > 0 && n > f.step {
		n = f.step
	}
	n = copy(p[:n], f.b)
	f.b = f.b[n:]
	return n, nil
}
func (f *feed) Write(p []byte) (int, error) {
	f.written = append(f.written, p...)
	return len(p), nil
}
func (f *feed) Close() error                       { return nil }
func (f *feed) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (f *feed) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (f *feed) SetDeadline(t time.Time) error      { return nil }
func (f *feed) SetReadDeadline(t time.Time) error  { return nil }
func (f *feed) SetWriteDeadline(t time.Time) error { return nil }
