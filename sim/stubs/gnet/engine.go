// Package gnet is a simulator stand-in for gnet v2.1.0: the same event
// semantics (sub-reactors, one OnTraffic per read, leftover bytes kept in an
// inbound buffer, asynchronous writes and closes through a per-loop queue) on
// top of the simulated network.
package gnet

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"simrt"
	"simrt/simnet"

	gerrors "github.com/panjf2000/gnet/v2/pkg/errors"
)

// LoadBalancing represents the type of load-balancing algorithm.
type LoadBalancing int

const (
	RoundRobin LoadBalancing = iota
	LeastConnections
	SourceAddrHash
)

var MaxStreamBufferCap = 64 * 1024

type Engine struct{ eng *engine }

func (s Engine) CountConnections() (count int) {
	for _, l := range s.eng.loops {
		count += l.count
	}
	return
}
func (s Engine) Dup() (int, error) { return -1, gerrors.ErrUnsupportedOp }

type engine struct {
	opts     *Options
	h        EventHandler
	ln       *simnet.Lis
	loops    []*eventloop
	next     int
	shutdown bool
	wait     simrt.WaitQ
	accQ     simrt.WaitQ
}

type task struct {
	f   func() error
	pri bool
}

type eventloop struct {
	idx    int
	eng    *engine
	wait   simrt.WaitQ
	idle   bool
	ready  []*conn
	urgent []func() error
	low    []func() error
	conns  map[int]*conn
	order  []*conn
	count  int
	buffer []byte
	cache  []byte
	closed bool
	g      int
	busyAt int64 // since when the current handler runs (0: none)
}

// LoopReport is filled for the harness: how long an event loop was held by one callback.
type LoopReport struct {
	MaxHoldNs int64
	MaxWhat   string
}

var Loops LoopReport

// Observe is how the harness follows admissions; the key is the remote address.
var Observe struct {
	OpenEnter  func(remote string)
	OpenExit   func(remote string, refused bool)
	CloseEnter func(remote string, err error)
	CloseExit  func(remote string)
}

// NumLoops is the number of event loops of a multicore engine (0: NumCPU).
var NumLoops int

// Violations of the library contract, seen by the harness as information.
var OffLoopCalls = map[string]int{}

var fds = map[int]bool{}

func newFd() int {
	fd := 7
	for fds[fd] {
		fd++
	}
	fds[fd] = true
	return fd
}

var allEngines = map[string]*engine{}

// Running counts the engines whose goroutines have all been started.
func Running() int { return len(allEngines) }

func parseProtoAddr(addr string) (network, address string) {
	network = "tcp"
	address = strings.ToLower(addr)
	if strings.Contains(address, "://") {
		pair := strings.Split(address, "://")
		network = pair[0]
		address = pair[1]
	}
	return
}

func Run(h EventHandler, protoAddr string, opts ...Option) error {
	options := loadOptions(opts...)
	network, addr := parseProtoAddr(protoAddr)
	if !strings.HasPrefix(network, "tcp") {
		return gerrors.ErrUnsupportedOp
	}
	ln, err := simnet.ListenOn(addr)
	if err != nil {
		return os.NewSyscallError("bind", err)
	}
	defer ln.Close()
	n := 1
	if options.Multicore {
		n = simrt.Opt.NumCPU
		if NumLoops > 0 {
			n = NumLoops
		}
	}
	if options.NumEventLoop > 0 {
		n = options.NumEventLoop
	}
	eng := &engine{opts: options, h: h, ln: ln}
	if h.OnBoot(Engine{eng}) == Shutdown {
		return nil
	}
	for i := 0; i < n; i++ {
		l := &eventloop{idx: i, eng: eng, conns: map[int]*conn{}, buffer: make([]byte, MaxStreamBufferCap)}
		eng.loops = append(eng.loops, l)
		simrt.GoAs(l.run, false)
	}
	simrt.GoAs(eng.accept, false)
	if options.Ticker {
		simrt.GoAs(eng.ticker, false)
	}
	allEngines[protoAddr] = eng
	// stop
	for !eng.shutdown {
		eng.wait.Wait("gnet engine", 0)
	}
	h.OnShutdown(Engine{eng})
	for _, l := range eng.loops {
		l.trigger(true, func() error { return gerrors.ErrEngineShutdown })
	}
	for _, l := range eng.loops {
		for !l.closed {
			simrt.SleepNs(1e6)
		}
	}
	ln.Close()
	return nil
}

func Stop(ctx context.Context, protoAddr string) error {
	eng := allEngines[protoAddr]
	if eng == nil {
		return gerrors.ErrEngineInShutdown
	}
	delete(allEngines, protoAddr)
	eng.signal()
	return nil
}

func (e *engine) signal() {
	e.shutdown = true
	e.wait.WakeAll()
	e.accQ.WakeAll()
}

func (e *engine) accept() {
	e.ln.OnConn = func() { e.accQ.WakeAll() }
	for !e.shutdown {
		s := e.ln.TryAccept()
		if s == nil {
			e.accQ.Wait("gnet accept", 0)
			continue
		}
		simrt.Y()
		l := e.pick(s)
		c := &conn{loop: l, s: s, fd: newFd(), localAddr: s.Local, remoteAddr: s.Remote}
		l.trigger(true, func() error { return l.register(c) })
	}
}

func (e *engine) pick(s *simnet.Sock) *eventloop {
	switch e.opts.LB {
	case LeastConnections:
		b := e.loops[0]
		for _, l := range e.loops {
			if l.count < b.count {
				b = l
			}
		}
		return b
	case SourceAddrHash:
		return e.loops[s.Remote.Port%len(e.loops)]
	}
	l := e.loops[e.next%len(e.loops)]
	e.next++
	return l
}

func (e *engine) ticker() {
	for !e.shutdown {
		delay, action := e.h.OnTick()
		if action == Shutdown {
			e.signal()
			return
		}
		if delay <= 0 {
			simrt.SleepNs(10_000)
			continue
		}
		simrt.SleepNs(int64(delay) + simrt.Slack())
	}
}

func (l *eventloop) trigger(urgent bool, f func() error) {
	if urgent {
		l.urgent = append(l.urgent, f)
	} else {
		l.low = append(l.low, f)
	}
	l.wait.WakeAll()
}

func (l *eventloop) mark(c *conn) {
	if !c.queued {
		c.queued = true
		l.ready = append(l.ready, c)
	}
	l.wait.WakeAll()
}

func (l *eventloop) hold(what string, f func() error) error {
	t := simrt.PeekNs()
	err := f()
	if d := simrt.PeekNs() - t; d > Loops.MaxHoldNs {
		Loops.MaxHoldNs, Loops.MaxWhat = d, what
	}
	return err
}

func (l *eventloop) run() {
	l.g = simrt.CurID()
	defer func() { l.closed = true }()
	for {
		if len(l.ready) == 0 && len(l.urgent) == 0 && len(l.low) == 0 {
			l.wait.Wait("epoll_wait", 0)
			continue
		}
		simrt.Y()
		ev := l.ready
		l.ready = nil
		for i := len(ev) - 1; i > 0; i-- {
			j := simrt.NetR.Intn(i + 1)
			ev[i], ev[j] = ev[j], ev[i]
		}
		hasTasks := len(l.urgent)+len(l.low) > 0
		for _, c := range ev {
			c.queued = false
			if l.conns[c.fd] != c {
				continue
			}
			if l.stop(l.hold("events", func() error { return c.events() })) {
				return
			}
		}
		if !hasTasks {
			continue
		}
		for len(l.urgent) > 0 {
			f := l.urgent[0]
			l.urgent = l.urgent[1:]
			if l.stop(l.hold("urgent", f)) {
				return
			}
		}
		for i := 0; i < 256 && len(l.low) > 0; i++ {
			f := l.low[0]
			l.low = l.low[1:]
			if l.stop(l.hold("async", f)) {
				return
			}
		}
	}
}

func (l *eventloop) stop(err error) bool {
	if err == gerrors.ErrEngineShutdown {
		for len(l.order) > 0 {
			_ = l.closeConn(l.order[0], nil)
		}
		l.eng.signal()
		return true
	}
	return false
}

func (l *eventloop) register(c *conn) error {
	l.conns[c.fd] = c
	l.order = append(l.order, c)
	c.opened = true
	l.count++
	c.s.OnRead = func() { l.mark(c) }
	c.s.OnWrite = func() {
		if len(c.out) > 0 {
			l.mark(c)
		}
	}
	remote := c.remoteAddr.String()
	if Observe.OpenEnter != nil {
		Observe.OpenEnter(remote)
	}
	out, action := l.eng.h.OnOpen(c)
	if Observe.OpenExit != nil {
		Observe.OpenExit(remote, action != None)
	}
	if out != nil {
		n, err := c.s.TryWrite(out)
		if err != nil && err != syscall.EAGAIN {
			return err
		}
		c.out = append(c.out, out[n:]...)
	}
	if c.s.Unread() > 0 || c.s.PeerGone() {
		l.mark(c)
	}
	return l.act(c, action)
}

func (l *eventloop) act(c *conn, a Action) error {
	switch a {
	case Close:
		return l.closeConn(c, nil)
	case Shutdown:
		return gerrors.ErrEngineShutdown
	}
	return nil
}

func (c *conn) events() error {
	l := c.loop
	if len(c.out) > 0 {
		if err := l.write(c); err != nil {
			return err
		}
		if len(c.out) > 0 && c.s.Unread() > 0 {
			// writable and readable: reading waits for the next event round
		}
	}
	if !c.opened || l.conns[c.fd] != c {
		return nil
	}
	if c.s.Unread() > 0 || c.s.PeerGone() {
		err := l.read(c)
		if c.opened && l.conns[c.fd] == c && (c.s.Unread() > 0 || c.s.PeerGone()) {
			l.mark(c)
		}
		return err
	}
	return nil
}

func (l *eventloop) read(c *conn) error {
	n, err := c.s.TryRead(l.buffer)
	if err == syscall.EAGAIN {
		return nil
	}
	if err != nil || n == 0 {
		if n == 0 && (err == nil || err == io.EOF) {
			err = syscall.ECONNRESET
		}
		if en, ok := err.(syscall.Errno); ok {
			err = os.NewSyscallError("read", en)
		}
		return l.closeConn(c, err)
	}
	c.buffer = l.buffer[:n]
	simrt.Y()
	switch l.eng.h.OnTraffic(c) {
	case Close:
		return l.closeConn(c, nil)
	case Shutdown:
		return gerrors.ErrEngineShutdown
	}
	if len(c.inb) == 0 { // an empty ring buffer is filled from its start
		c.inb = c.ring[:0]
	}
	c.inb = append(c.inb, c.buffer...)
	if len(c.inb) > 0 {
		c.ring = c.inb
	}
	c.buffer = nil
	for i := range l.cache {
		l.cache[i] = 0xdb
	}
	for i := 0; i < n; i++ {
		l.buffer[i] = 0xdb // the library reuses this memory
	}
	return nil
}

func (l *eventloop) write(c *conn) error {
	if len(c.out) == 0 {
		return nil
	}
	snap := c.out
	simrt.Y()
	n, err := c.s.TryWrite(snap)
	simrt.Y()
	if n > 0 {
		if n > len(c.out) {
			n = len(c.out)
		}
		c.out = c.out[n:]
	}
	switch err {
	case nil, syscall.EAGAIN:
		return nil
	}
	return l.closeConn(c, os.NewSyscallError("write", err))
}

func (l *eventloop) closeConn(c *conn, err error) (rerr error) {
	if !c.opened {
		return nil
	}
	for len(c.out) > 0 {
		n, e := c.s.TryWrite(c.out)
		if e != nil {
			break
		}
		c.out = c.out[n:]
	}
	c.s.OnRead, c.s.OnWrite = nil, nil
	c.s.Close()
	fd := c.fd
	delete(l.conns, fd)
	delete(fds, fd)
	for i, x := range l.order {
		if x == c {
			l.order = append(l.order[:i:i], l.order[i+1:]...)
			break
		}
	}
	l.count--
	remote := c.remoteAddr.String()
	if Observe.CloseEnter != nil {
		Observe.CloseEnter(remote, err)
	}
	simrt.Y()
	if l.eng.h.OnClose(c, err) == Shutdown {
		rerr = gerrors.ErrEngineShutdown
	}
	if Observe.CloseExit != nil {
		Observe.CloseExit(remote)
	}
	c.opened = false
	c.ctx = nil
	c.buffer = nil
	c.localAddr, c.remoteAddr = nil, nil
	c.inb, c.out = nil, nil
	return
}

type conn struct {
	ctx        interface{}
	loop       *eventloop
	s          *simnet.Sock
	fd         int
	localAddr  net.Addr
	remoteAddr net.Addr
	buffer     []byte
	inb        []byte
	ring       []byte
	out        []byte
	opened     bool
	queued     bool
}

func (c *conn) off(what string) {
	if simrt.CurID() != c.loop.g {
		OffLoopCalls[what]++
	}
	simrt.Y()
}

func (c *conn) write(data []byte) (int, error) {
	n := len(data)
	if len(c.out) > 0 {
		c.out = append(c.out, data...)
		return n, nil
	}
	sent, err := c.s.TryWrite(data)
	if err != nil {
		if err == syscall.EAGAIN {
			c.out = append(c.out, data...)
			return n, nil
		}
		return -1, c.loop.closeConn(c, os.NewSyscallError("write", err))
	}
	if sent < n {
		c.out = append(c.out, data[sent:]...)
	}
	return n, nil
}

func (c *conn) Read(p []byte) (n int, err error) {
	c.off("Read")
	n = copy(p, c.inb)
	c.inb = c.inb[n:]
	if n == len(p) {
		return
	}
	m := copy(p[n:], c.buffer)
	c.buffer = c.buffer[m:]
	return n + m, nil
}

func (c *conn) Next(n int) ([]byte, error) {
	c.off("Next")
	total := len(c.inb) + len(c.buffer)
	if n > total {
		return nil, io.ErrShortBuffer
	} else if n <= 0 {
		n = total
	}
	b := c.peek(n)
	c.drop(n)
	return b, nil
}

func (c *conn) peek(n int) []byte {
	if len(c.inb) == 0 {
		return c.buffer[:n:n]
	}
	if n <= len(c.inb) {
		return c.inb[:n:n]
	}
	// the library joins the pieces in a buffer of the loop
	c.loop.cache = append(append(c.loop.cache[:0], c.inb...), c.buffer[:n-len(c.inb)]...)
	return c.loop.cache
}

func (c *conn) drop(n int) {
	if n <= len(c.inb) {
		c.inb = c.inb[n:]
		return
	}
	n -= len(c.inb)
	c.inb = nil
	c.buffer = c.buffer[n:]
}

func (c *conn) Peek(n int) ([]byte, error) {
	c.off("Peek")
	total := len(c.inb) + len(c.buffer)
	if n > total {
		return nil, io.ErrShortBuffer
	} else if n <= 0 {
		n = total
	}
	return c.peek(n), nil
}

func (c *conn) Discard(n int) (int, error) {
	c.off("Discard")
	total := len(c.inb) + len(c.buffer)
	if total < n || n <= 0 {
		c.inb, c.buffer = nil, nil
		return total, nil
	}
	c.drop(n)
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.off("Write")
	return c.write(p)
}
func (c *conn) Writev(bs [][]byte) (int, error) {
	c.off("Writev")
	var b []byte
	for _, x := range bs {
		b = append(b, x...)
	}
	return c.write(b)
}
func (c *conn) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	c.out = append(c.out, b...)
	return int64(len(b)), err
}
func (c *conn) WriteTo(w io.Writer) (int64, error) {
	b := c.peek(len(c.inb) + len(c.buffer))
	n, err := w.Write(b)
	c.drop(n)
	return int64(n), err
}
func (c *conn) Flush() error {
	c.off("Flush")
	if len(c.out) == 0 {
		return nil
	}
	return c.loop.write(c)
}
func (c *conn) InboundBuffered() int                     { return len(c.inb) + len(c.buffer) }
func (c *conn) OutboundBuffered() int                    { return len(c.out) }
func (c *conn) SetDeadline(_ time.Time) error            { return gerrors.ErrUnsupportedOp }
func (c *conn) SetReadDeadline(_ time.Time) error        { return gerrors.ErrUnsupportedOp }
func (c *conn) SetWriteDeadline(_ time.Time) error       { return gerrors.ErrUnsupportedOp }
func (c *conn) Context() interface{}                     { return c.ctx }
func (c *conn) SetContext(ctx interface{})               { c.ctx = ctx }
func (c *conn) LocalAddr() net.Addr                      { return c.localAddr }
func (c *conn) RemoteAddr() net.Addr                     { return c.remoteAddr }
func (c *conn) Fd() int                                  { return c.fd }
func (c *conn) Dup() (int, error)                        { return -1, gerrors.ErrUnsupportedOp }
func (c *conn) SetReadBuffer(bytes int) error            { return nil }
func (c *conn) SetWriteBuffer(bytes int) error           { return nil }
func (c *conn) SetLinger(sec int) error                  { return nil }
func (c *conn) SetKeepAlivePeriod(d time.Duration) error { c.s.Keepalive = true; return nil }
func (c *conn) SetNoDelay(noDelay bool) error            { return nil }

func (c *conn) AsyncWrite(buf []byte, callback AsyncCallback) error {
	simrt.Y()
	c.loop.trigger(false, func() error {
		if !c.opened {
			return nil
		}
		_, err := c.write(buf)
		if callback != nil {
			_ = callback(c)
		}
		return err
	})
	return nil
}
func (c *conn) AsyncWritev(bs [][]byte, callback AsyncCallback) error {
	var b []byte
	for _, x := range bs {
		b = append(b, x...)
	}
	return c.AsyncWrite(b, callback)
}
func (c *conn) Wake(callback AsyncCallback) error {
	simrt.Y()
	c.loop.trigger(true, func() (err error) {
		if c.loop.conns[c.fd] == c {
			err = c.loop.act(c, c.loop.eng.h.OnTraffic(c))
		}
		if callback != nil {
			_ = callback(c)
		}
		return
	})
	return nil
}
func (c *conn) CloseWithCallback(callback AsyncCallback) error {
	simrt.Y()
	c.loop.trigger(false, func() error {
		err := c.loop.closeConn(c, nil)
		if callback != nil {
			_ = callback(c)
		}
		return err
	})
	return nil
}
func (c *conn) Close() error { return c.CloseWithCallback(nil) }

func (c *conn) String() string { return fmt.Sprintf("conn(fd=%d)", c.fd) }
