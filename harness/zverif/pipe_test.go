package zverif

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// bufConn is one end of an in-memory duplex connection whose writes never block
// (unbounded buffers), so that no lock held by a client library around a write can
// stall the bubble's virtual clock.
type bufConn struct {
	r, w *halfPipe
	once sync.Once
	peer *bufConn
	name string

	writeHook func(p []byte) error // fails writes
}

type halfPipe struct {
	mu       sync.Mutex
	buf      []byte
	closed   bool
	err      error
	notify   chan struct{}
	deadline time.Time
	timer    *time.Timer
}

func newHalf() *halfPipe { return &halfPipe{notify: make(chan struct{}, 1)} }

func bufPipe() (*bufConn, *bufConn) {
	a, b := newHalf(), newHalf()
	x, y := &bufConn{r: a, w: b, name: "client"}, &bufConn{r: b, w: a, name: "server"}
	x.peer, y.peer = y, x
	return x, y
}

func (h *halfPipe) wake() {
	select {
	case h.notify <- struct{}{}:
	default:
	}
}

func (h *halfPipe) Read(p []byte) (int, error) {
	for {
		h.mu.Lock()
		if len(h.buf) > 0 {
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			} else {
				h.wake()
			}
			h.mu.Unlock()
			return n, nil
		}
		if h.closed {
			err := h.err
			h.wake()
			h.mu.Unlock()
			return 0, err
		}
		if !h.deadline.IsZero() && !time.Now().Before(h.deadline) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		h.mu.Unlock()
		<-h.notify
	}
}

func (h *halfPipe) Write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, io.ErrClosedPipe
	}
	h.buf = append(h.buf, p...)
	h.wake()
	return len(p), nil
}

func (h *halfPipe) closeWith(err error, drop bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.closed {
		h.closed = true
		h.err = err
		if drop {
			h.buf = nil
		}
	}
	if h.timer != nil {
		h.timer.Stop()
	}
	h.wake()
}

func (h *halfPipe) setDeadline(t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.deadline = t
	if h.timer != nil {
		h.timer.Stop()
		h.timer = nil
	}
	if !t.IsZero() {
		d := time.Until(t)
		if d <= 0 {
			h.wake()
			return
		}
		h.timer = time.AfterFunc(d, h.wake)
	}
}

func (c *bufConn) Read(p []byte) (int, error) { return c.r.Read(p) }
func (c *bufConn) Write(p []byte) (int, error) {
	if c.writeHook != nil {
		if err := c.writeHook(p); err != nil {
			return 0, err
		}
	}
	return c.w.Write(p)
}
func (c *bufConn) Close() error {
	c.once.Do(func() {
		c.w.closeWith(io.EOF, false)
		c.r.closeWith(io.ErrClosedPipe, true)
	})
	return nil
}

// Reset breaks the connection in both directions, losing what is in flight.
func (c *bufConn) Reset() {
	c.w.closeWith(io.ErrUnexpectedEOF, true)
	c.r.closeWith(io.ErrUnexpectedEOF, true)
}

type bufAddr string

func (a bufAddr) Network() string { return "mem" }
func (a bufAddr) String() string  { return string(a) }

func (c *bufConn) LocalAddr() net.Addr                { return bufAddr("mem-" + c.name) }
func (c *bufConn) RemoteAddr() net.Addr               { return bufAddr("mem-peer") }
func (c *bufConn) SetDeadline(t time.Time) error      { c.r.setDeadline(t); return nil }
func (c *bufConn) SetReadDeadline(t time.Time) error  { c.r.setDeadline(t); return nil }
func (c *bufConn) SetWriteDeadline(t time.Time) error { return nil }
