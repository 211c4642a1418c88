package simrt

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// Simulated TCP. The other end of every connection is a world object.

type Server interface {
	// Accept is called when a connection has been established.
	Accept(c *Conn)
	// Data is called with bytes the recorder wrote, after network delay.
	Data(c *Conn, b []byte)
	// Closed is called when the recorder's end is gone.
	Closed(c *Conn)
}

type Net struct {
	w       *World
	Servers map[string]Server
	// Refuse, Hang: connection attempts are refused / never answered
	Refuse, Hang bool
	// Stall: established connections carry no data in either direction
	Stall   bool
	Latency func() int64
	Conns   []*Conn
	Dials   int
	held    []func()
	nid     int
}

func newNet(w *World) *Net {
	return &Net{w: w, Servers: map[string]Server{}, Latency: func() int64 { return 200000 }}
}

// Unstall releases held traffic.
func (n *Net) Unstall() {
	n.Stall = false
	h := n.held
	n.held = nil
	for _, f := range h {
		f()
	}
}

func (n *Net) deliver(f func()) {
	if n.Stall {
		n.held = append(n.held, f)
		return
	}
	f()
}

type Addr struct{ s string }

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return a.s }

type Conn struct {
	ID          int
	w           *World
	p           *Proc
	srv         Server
	rbuf        []byte
	rerr        error // pending read error once rbuf is drained
	werr        error
	closed      bool // by the recorder
	gone        bool
	rwait       []*G
	rdl         int64
	wdl         int64
	dlEv        *Event
	lastIn      int64
	lastOut     int64
	User        any
	Established int64
}

func (n *Net) dial(ctx context.Context, network, addr string, timeout time.Duration) (net.Conn, error) {
	w := n.w
	w.needG("dial")
	w.syncPoint()
	n.Dials++
	g := w.cur
	oe := func(e error) error { return &net.OpError{Op: "dial", Net: network, Addr: Addr{addr}, Err: e} }
	var dl *Event
	res := 0
	to := int64(timeout)
	if to <= 0 {
		to = int64(120 * time.Second)
	}
	dl = w.procAfter(g.Proc, to, "", func() {
		if res == 0 {
			res = 2
			w.ready(g)
		}
	})
	if !n.Hang {
		w.procAfter(g.Proc, n.Latency(), "", func() {
			if res == 0 && !n.Hang {
				res = 1
				w.ready(g)
			}
		})
	}
	if ctx != nil && ctx.Done() != nil {
		Go(func() {
			Recv(ctx.Done())
			if res == 0 {
				res = 3
				w.ready(g)
			}
		})
	}
	w.park("dial")
	dl.Cancel()
	switch res {
	case 2:
		return nil, oe(&timeoutErr{})
	case 3:
		return nil, oe(ctx.Err())
	}
	var srv Server
	for k, s := range n.Servers {
		if nw, a, _ := strings.Cut(k, "!"); hostAddr(nw, a) == hostAddr(network, addr) {
			srv = s
		}
	}
	if srv == nil || n.Refuse {
		return nil, oe(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nid++
	c := &Conn{ID: n.nid, w: w, p: g.Proc, srv: srv, Established: w.now}
	n.Conns = append(n.Conns, c)
	g.Proc.conns = append(g.Proc.conns, c)
	srv.Accept(c)
	return c, nil
}

type timeoutErr struct{}

func (*timeoutErr) Error() string   { return "i/o timeout" }
func (*timeoutErr) Timeout() bool   { return true }
func (*timeoutErr) Temporary() bool { return true }
func (*timeoutErr) Is(e error) bool {
	return e == os.ErrDeadlineExceeded || e == context.DeadlineExceeded
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return W.Net.dial(nil, network, addr, d.Timeout)
}
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return W.Net.dial(ctx, network, addr, d.Timeout)
}
func Dial(network, addr string) (net.Conn, error) { return W.Net.dial(nil, network, addr, 0) }
func DialTimeout(network, addr string, t time.Duration) (net.Conn, error) {
	return W.Net.dial(nil, network, addr, t)
}

func (c *Conn) op(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: Addr{"broker"}, Err: e}
}

func (c *Conn) wake() {
	q := c.rwait
	c.rwait = nil
	for _, g := range q {
		c.w.ready(g)
	}
}

func (c *Conn) Read(b []byte) (int, error) {
	w := c.w
	w.needG("read")
	w.syncPoint()
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		if c.rdl != 0 && w.now >= c.rdl {
			return 0, c.op("read", &timeoutErr{})
		}
		if len(c.rbuf) > 0 {
			n := copy(b, c.rbuf)
			c.rbuf = c.rbuf[n:]
			return n, nil
		}
		if c.rerr != nil {
			if c.rerr == io.EOF {
				return 0, io.EOF
			}
			return 0, c.op("read", c.rerr)
		}
		c.rwait = append(c.rwait, w.cur)
		w.park("network read")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	w := c.w
	w.needG("write")
	w.syncPoint()
	if c.closed {
		return 0, c.op("write", net.ErrClosed)
	}
	if c.werr != nil {
		return 0, c.op("write", c.werr)
	}
	if c.rerr != nil {
		// the peer is gone: the first write after that succeeds into the socket buffer, later ones fail
		c.werr = syscall.EPIPE
		return len(b), nil
	}
	data := append([]byte(nil), b...)
	at := w.now + w.Net.Latency()
	if at < c.lastOut {
		at = c.lastOut
	}
	c.lastOut = at
	w.At(at, func() {
		w.Net.deliver(func() {
			if !c.gone {
				c.srv.Data(c, data)
			}
		})
	})
	return len(b), nil
}

// Push delivers bytes from the server to the recorder, after network delay.
func (c *Conn) Push(b []byte) {
	w := c.w
	data := append([]byte(nil), b...)
	at := w.now + w.Net.Latency()
	if at < c.lastIn {
		at = c.lastIn
	}
	c.lastIn = at
	w.At(at, func() {
		w.Net.deliver(func() {
			if c.gone || c.closed || c.rerr != nil {
				return
			}
			c.rbuf = append(c.rbuf, data...)
			c.wake()
		})
	})
}

// Drop closes the connection from the server side; rst selects a reset.
func (c *Conn) Drop(rst bool) {
	if c.gone || c.rerr != nil {
		return
	}
	if rst {
		c.rerr = syscall.ECONNRESET
		c.rbuf = nil
	} else {
		c.rerr = io.EOF
	}
	c.wake()
}

// Vanish makes the peer silent forever (half-open connection).
func (c *Conn) Vanish() { c.srv = deadSrv{}; c.gone = true }

type deadSrv struct{}

func (deadSrv) Accept(*Conn)       {}
func (deadSrv) Data(*Conn, []byte) {}
func (deadSrv) Closed(*Conn)       {}

func (c *Conn) Alive() bool { return !c.closed && !c.gone && c.rerr == nil }

func (c *Conn) Close() error {
	c.w.checkKilled()
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.wake()
	c.fin()
	P()
	return nil
}

func (c *Conn) fin() {
	w := c.w
	at := w.now + w.Net.Latency()
	if at < c.lastOut {
		at = c.lastOut
	}
	w.At(at, func() {
		w.Net.deliver(func() {
			if !c.gone {
				c.gone = true
				c.srv.Closed(c)
			}
		})
	})
}

func (c *Conn) procGone() {
	if !c.closed {
		c.closed = true
		c.fin()
	}
}

func (c *Conn) IsOpen() bool { return !c.closed }

// Owner is the process that made the connection.
func (c *Conn) Owner() *Proc { return c.p }

func (c *Conn) LocalAddr() net.Addr  { return Addr{"127.0.0.1:40000"} }
func (c *Conn) RemoteAddr() net.Addr { return Addr{"127.0.0.1:6379"} }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.w.checkKilled()
	if c.dlEv != nil {
		c.dlEv.Cancel()
		c.dlEv = nil
	}
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	d := int64(t.Sub(Now()))
	if d < 1 {
		d = 1
	}
	c.rdl = c.w.now + d
	c.dlEv = c.w.procAfter(c.p, d, "", func() { c.wake() })
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

var ErrRefused = errors.New("refused")

// hostAddr is an address in one of the ways to write it.
func hostAddr(network, addr string) string {
	if strings.HasPrefix(network, "tcp") {
		for _, h := range []string{":", "localhost:", "[::1]:", "0.0.0.0:"} {
			if strings.HasPrefix(addr, h) {
				return "tcp!127.0.0.1:" + addr[len(h):]
			}
		}
		return "tcp!" + addr
	}
	return network + "!" + addr
}
