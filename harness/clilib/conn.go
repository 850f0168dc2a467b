// Package clilib stands in for the network between the real client and a gateway played by the driver.
package clilib

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Conn is the client's end of a connection. What the gateway sends arrives segment by segment: one Read never
// returns octets of two segments.
type Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	segs   [][]byte
	eof    bool
	closed bool
	broken bool // the peer is gone: writes fail
	out    []byte
	reads  int // callers inside Read
	dead   time.Time
	// OnWrite sees every write that got through, before Write returns.
	OnWrite func(p []byte)
	// OnFail is called when a write fails because of BreakWrites.
	OnFail func()
	// Pause is called at the start of every operation.
	Pause func()
	// OnClose is called when the client closes the connection.
	OnClose func()
	Name    string
}

func NewConn(name string) *Conn {
	c := &Conn{Name: name}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) pause() {
	if c.Pause != nil {
		c.Pause()
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.pause()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	defer func() { c.reads-- }()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.segs) > 0 {
			n := copy(p, c.segs[0])
			if n == len(c.segs[0]) {
				c.segs = c.segs[1:]
			} else {
				c.segs[0] = c.segs[0][n:]
			}
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		if !c.dead.IsZero() && !time.Now().Before(c.dead) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.pause()
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if c.broken {
		f := c.OnFail
		c.mu.Unlock()
		if f != nil {
			f()
		}
		return 0, errors.New("write: broken pipe")
	}
	c.out = append(c.out, p...)
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		f(p)
	}
	return len(p), nil
}

func (c *Conn) Close() error {
	c.pause()
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.closed = true
	c.cond.Broadcast()
	f := c.OnClose
	c.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "192.0.2.1:7890" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.dead = t
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), c.cond.Broadcast)
	}
	c.cond.Broadcast()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// The gateway's side.

func (c *Conn) Feed(seg []byte) {
	if len(seg) == 0 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.segs = append(c.segs, append([]byte(nil), seg...))
	c.cond.Broadcast()
}

func (c *Conn) End() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.broken = true
	c.cond.Broadcast()
}

func (c *Conn) BreakWrites() { c.mu.Lock(); c.broken = true; c.mu.Unlock() }

// Taken returns what the client wrote since the last call.
func (c *Conn) Taken() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := c.out
	c.out = nil
	return o
}

func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }
func (c *Conn) Gone() bool   { c.mu.Lock(); defer c.mu.Unlock(); return c.closed || c.eof }
