package simnet

import (
	"context"
	"io"
	"net"
	"os"
	"simrt"
	"syscall"
	"time"
)

type Conn = net.Conn
type Listener = net.Listener

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var errTimeout error = timeoutError{}

// TCPConn is the blocking connection seen by the code under test.
type TCPConn struct {
	S        *Sock
	rdl, wdl int64
	wlock    bool
	wlockQ   simrt.WaitQ
	rlock    bool
	rlockQ   simrt.WaitQ
	closed   bool
}

// NewConn wraps an endpoint.
func NewConn(s *Sock) *TCPConn { return &TCPConn{S: s} }

func (c *TCPConn) operr(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	if en, ok := err.(syscall.Errno); ok {
		err = os.NewSyscallError(op, en)
	}
	var la, ra net.Addr
	if c.S != nil {
		la, ra = c.S.Local, c.S.Remote
	}
	return &net.OpError{Op: op, Net: "tcp", Source: la, Addr: ra, Err: err}
}

func (c *TCPConn) Read(b []byte) (int, error) {
	if c == nil || c.S == nil {
		return 0, syscall.EINVAL
	}
	simrt.Y()
	for c.rlock {
		c.rlockQ.Wait("net read lock", 0)
	}
	c.rlock = true
	defer func() { c.rlock = false; c.rlockQ.WakeOne() }()
	if len(b) == 0 {
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		return 0, nil
	}
	for {
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		if c.rdl > 0 && simrt.PeekNs() >= c.rdl {
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		n, err := c.S.TryRead(b)
		if err != syscall.EAGAIN {
			if err == syscall.EBADF {
				err = net.ErrClosed
			}
			return n, c.operr("read", err)
		}
		c.S.waitR.Wait("net.Conn.Read", c.rdl)
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if c == nil || c.S == nil {
		return 0, syscall.EINVAL
	}
	simrt.Y()
	for c.wlock {
		c.wlockQ.Wait("net write lock", 0)
	}
	c.wlock = true
	defer func() { c.wlock = false; c.wlockQ.WakeOne() }()
	t := 0
	for {
		if c.closed {
			return t, c.operr("write", net.ErrClosed)
		}
		if c.wdl > 0 && simrt.PeekNs() >= c.wdl {
			return t, c.operr("write", os.ErrDeadlineExceeded)
		}
		if t >= len(b) {
			return t, nil
		}
		n, err := c.S.TryWrite(b[t:])
		t += n
		if err != nil && err != syscall.EAGAIN {
			if err == syscall.EBADF {
				err = net.ErrClosed
			}
			return t, c.operr("write", err)
		}
		if t < len(b) && c.S.writable() == 0 {
			c.S.waitW.Wait("net.Conn.Write", c.wdl)
		}
	}
}

func (c *TCPConn) Close() error {
	if c == nil || c.S == nil {
		return syscall.EINVAL
	}
	simrt.Y()
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.closed = true
	c.S.Close()
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.S.Local }
func (c *TCPConn) RemoteAddr() net.Addr { return c.S.Remote }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := simrt.PeekNs() + int64(t.Sub(simrt.TimeNow()))
	if d < 1 {
		d = 1
	}
	return d
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	c.rdl = dl(t)
	c.S.waitR.WakeAll()
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	c.wdl = dl(t)
	c.S.waitW.WakeAll()
	return nil
}
func (c *TCPConn) CloseWrite() error                        { c.S.CloseWrite(); return nil }
func (c *TCPConn) CloseRead() error                         { return nil }
func (c *TCPConn) SetLinger(sec int) error                  { return nil }
func (c *TCPConn) SetKeepAlive(b bool) error                { c.S.Keepalive = b; return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(b bool) error                  { return nil }
func (c *TCPConn) SetReadBuffer(n int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(n int) error               { return nil }

func Dial(network, address string) (Conn, error) { return dialT(network, address, 0) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	if d < 0 {
		d = 1
	}
	return dialT(network, address, int64(d))
}

func dialT(network, address string, to int64) (Conn, error) {
	simrt.Y()
	s, err := connect(address, to)
	if err != nil {
		if en, ok := err.(syscall.Errno); ok {
			err = os.NewSyscallError("connect", en)
		}
		var ra net.Addr
		if a, e := ParseAddr(address); e == nil {
			ra = a
		}
		return nil, &net.OpError{Op: "dial", Net: network, Addr: ra, Err: err}
	}
	s.Keepalive = true
	c := NewConn(s)
	return c, nil
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := dialT(network, raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	to := int64(d.Timeout)
	lim := func(t time.Time) {
		x := int64(t.Sub(simrt.TimeNow()))
		if x < 1 {
			x = 1
		}
		if to <= 0 || x < to {
			to = x
		}
	}
	if !d.Deadline.IsZero() {
		lim(d.Deadline)
	}
	if t, ok := ctx.Deadline(); ok {
		lim(t)
	}
	c, err := dialT(network, address, to)
	if err == nil && d.KeepAlive < 0 {
		c.(*TCPConn).S.Keepalive = false
	}
	return c, err
}

type TCPListener struct{ l *Lis }

func Listen(network, address string) (Listener, error) {
	l, err := ListenOn(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return &TCPListener{l}, nil
}
func (t *TCPListener) Accept() (Conn, error) {
	simrt.Y()
	s := t.l.Accept(0)
	if s == nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: t.l.Addr, Err: net.ErrClosed}
	}
	s.Keepalive = true
	return NewConn(s), nil
}
func (t *TCPListener) Close() error   { t.l.Close(); return nil }
func (t *TCPListener) Addr() net.Addr { return t.l.Addr }

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) { return ParseAddr(address) }
func LookupHost(host string) ([]string, error)                     { return []string{"127.0.0.1"}, nil }
func LookupIP(host string) ([]net.IP, error)                       { return []net.IP{net.IPv4(127, 0, 0, 1)}, nil }
func InterfaceAddrs() ([]net.Addr, error)                          { return nil, nil }
func Interfaces() ([]net.Interface, error)                         { return nil, nil }
func Pipe() (Conn, Conn) {
	a, b := newPair(Link{RcvWnd: 1 << 16, SndBuf: 1 << 16}, &net.TCPAddr{}, &net.TCPAddr{})
	return NewConn(a), NewConn(b)
}
