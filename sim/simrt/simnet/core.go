// Package simnet is a simulated TCP network and a replacement for package net.
package simnet

import (
	"fmt"
	"io"
	"net"
	"simrt"
	"syscall"
)

// Link describes the behaviour of one connection's path.
type Link struct {
	LatMin, LatMax int64   // one-way latency, ns
	Seg            int     // largest segment in bytes, 0 for whole
	Coalesce       int64   // ns a sender may hold data back to merge it
	ShortRead      float64 // probability of a short read
	RcvWnd         int     // receive window
	SndBuf         int     // send buffer
}

// Default link of new connections.
var Default = Link{LatMin: 20_000, LatMax: 200_000, Seg: 0, RcvWnd: 64 << 10, SndBuf: 64 << 10}

// LinkFor, when set, chooses the link of a new connection.
var LinkFor func(addr string) Link

// Counts of network events that actually happened (fault evidence).
var Counts = map[string]int64{}

type item struct {
	data  []byte
	fin   bool
	rst   bool
	ready bool
}

// Sock is one endpoint of a connection.
type Sock struct {
	ID        int
	peer      *Sock
	link      Link
	Local     *net.TCPAddr
	Remote    *net.TCPAddr
	Tag       string
	rbuf      []byte
	rfin      bool
	rerr      error
	closed    bool
	dead      bool
	sbuf      []byte
	sfin      bool // FIN requested
	finSent   bool
	inflight  []*item // ordered, towards the peer
	infBytes  int
	lastAt    int64
	pumpT     *simrt.Timer
	stallTo   int64
	Keepalive bool
	deathT    *simrt.Timer
	waitR     simrt.WaitQ
	waitW     simrt.WaitQ
	OnRead    func()            // readable or error (scheduler context)
	OnWrite   func()            // writable again
	Tap       func(b []byte)    // bytes accepted from the local writer
	OnDeliver func(total int64) // bytes arrived here
	Arrived   int64
	Sent      int64
	Recvd     int64
	SawRST    bool // a reset was received
}

var sockSeq int
var portSeq = 40000

func newPair(link Link, laddr, raddr *net.TCPAddr) (a, b *Sock) {
	sockSeq++
	a = &Sock{ID: sockSeq, link: link, Local: laddr, Remote: raddr}
	sockSeq++
	b = &Sock{ID: sockSeq, link: link, Local: raddr, Remote: laddr}
	a.peer, b.peer = b, a
	return
}

func (l *Link) lat() int64 { return simrt.NetR.Range(l.LatMin, l.LatMax) }

func (s *Sock) SetLink(l Link) { s.link = l }
func (s *Sock) Peer() *Sock    { return s.peer }
func (s *Sock) Closed() bool   { return s.closed }
func (s *Sock) Dead() bool     { return s.dead }

// Unread is the number of received bytes not read yet.
func (s *Sock) Unread() int { return len(s.rbuf) }

// Unsent is the number of bytes accepted from the writer and not yet delivered.
func (s *Sock) Unsent() int { return len(s.sbuf) + s.infBytes }

// PeerGone reports whether the peer's end is known here to be closed.
func (s *Sock) PeerGone() bool { return s.rfin || s.rerr != nil }

// Err is the pending connection error.
func (s *Sock) Err() error { return s.rerr }

func (s *Sock) writable() int {
	n := s.link.SndBuf - len(s.sbuf) - s.infBytes
	if n < 0 {
		n = 0
	}
	return n
}

// TryWrite is a non-blocking write.
func (s *Sock) TryWrite(b []byte) (int, error) {
	if s.closed {
		return 0, syscall.EBADF
	}
	if s.rerr != nil {
		if s.rerr == syscall.ECONNRESET {
			return 0, syscall.EPIPE
		}
		return 0, s.rerr
	}
	if s.sfin {
		return 0, syscall.EPIPE
	}
	n := s.writable()
	if n == 0 && len(b) > 0 {
		Counts["send_buffer_full"]++
		return 0, syscall.EAGAIN
	}
	if n > len(b) {
		n = len(b)
	}
	s.sbuf = append(s.sbuf, b[:n]...)
	s.Sent += int64(n)
	if s.Tap != nil && n > 0 {
		s.Tap(b[:n])
	}
	s.kick()
	s.armDeath()
	return n, nil
}

// TryRead is a non-blocking read.
func (s *Sock) TryRead(b []byte) (int, error) {
	if s.closed {
		return 0, syscall.EBADF
	}
	if len(s.rbuf) > 0 {
		if len(b) == 0 {
			return 0, nil
		}
		n := len(s.rbuf)
		if n > len(b) {
			n = len(b)
		}
		if n > 1 && s.link.ShortRead > 0 && simrt.NetR.Bool(s.link.ShortRead) {
			n = 1 + simrt.NetR.Intn(n-1)
			Counts["short_read"]++
		}
		copy(b, s.rbuf[:n])
		s.rbuf = s.rbuf[n:]
		s.Recvd += int64(n)
		s.peer.kick()
		return n, nil
	}
	if s.rerr != nil {
		return 0, s.rerr
	}
	if s.rfin {
		return 0, io.EOF
	}
	return 0, syscall.EAGAIN
}

// kick schedules the transmission of queued bytes.
func (s *Sock) kick() {
	if s.pumpT != nil || s.dead || s.rerr != nil {
		return
	}
	if len(s.sbuf) == 0 && !(s.sfin && !s.finSent) {
		return
	}
	d := int64(0)
	if s.link.Coalesce > 0 {
		d = simrt.NetR.Range(0, s.link.Coalesce)
	}
	s.pumpT = simrt.AddTimer(simrt.PeekNs()+d, func() { s.pumpT = nil; s.pump() })
}

func (s *Sock) segLen(n int) int {
	r := simrt.NetR
	m := n
	if g := s.link.Seg; g > 0 { // at most g bytes at a time, often fewer
		m = g
		if g > 1 && r.Intn(2) == 0 {
			m = 1 + r.Intn(g)
		}
	}
	if m > n {
		m = n
	}
	if m < n {
		Counts["segment_split"]++
	}
	return m
}

func (s *Sock) pump() {
	p := s.peer
	if s.dead || s.rerr != nil {
		return
	}
	for len(s.sbuf) > 0 {
		room := s.link.RcvWnd - len(p.rbuf) - s.infBytes
		if p.closed {
			room = 1 << 20
		}
		if room <= 0 {
			Counts["window_full"]++
			return // resumed when the peer reads
		}
		n := len(s.sbuf)
		if n > room {
			n = room
		}
		n = s.segLen(n)
		it := &item{data: append([]byte{}, s.sbuf[:n]...)}
		s.sbuf = s.sbuf[n:]
		s.send(it)
	}
	if s.sfin && !s.finSent && len(s.sbuf) == 0 {
		s.finSent = true
		s.send(&item{fin: true})
	}
}

func (s *Sock) send(it *item) {
	at := simrt.PeekNs() + s.link.lat()
	if at < s.lastAt {
		at = s.lastAt
	}
	if s.stallTo > at {
		at = s.stallTo
	}
	s.lastAt = at
	s.inflight = append(s.inflight, it)
	s.infBytes += len(it.data)
	simrt.AddTimer(at, func() { it.ready = true; s.deliver() })
}

func (s *Sock) deliver() {
	now := simrt.PeekNs()
	p := s.peer
	if s.stallTo > now {
		simrt.AddTimer(s.stallTo, func() { s.deliver() })
		return
	}
	for len(s.inflight) > 0 && s.inflight[0].ready {
		it := s.inflight[0]
		if p.dead || s.dead && !it.rst {
			if p.dead {
				return // bytes stay unacknowledged
			}
		}
		s.inflight = s.inflight[1:]
		s.infBytes -= len(it.data)
		switch {
		case it.rst:
			p.reset(syscall.ECONNRESET)
		case p.closed:
			// data for a closed socket is answered with a reset
			if !s.closed || len(it.data) > 0 {
				if len(it.data) > 0 {
					s.reset(syscall.ECONNRESET)
				}
			}
		case it.fin:
			p.rfin = true
			p.notify()
		default:
			if p.rerr == nil {
				p.rbuf = append(p.rbuf, it.data...)
				p.Arrived += int64(len(it.data))
				if p.OnDeliver != nil {
					p.OnDeliver(p.Arrived)
				}
				simrt.MixHash(uint64(p.ID)<<32 ^ uint64(len(it.data)) ^ uint64(now)<<8)
				p.notify()
			}
		}
	}
	s.armDeath()
	if len(s.sbuf) > 0 || s.sfin && !s.finSent {
		s.kick()
	}
	if s.writable() > 0 && !s.closed {
		s.waitW.WakeAll()
		if s.OnWrite != nil {
			s.OnWrite()
		}
	}
}

func (s *Sock) notify() {
	s.waitR.WakeAll()
	if s.OnRead != nil {
		s.OnRead()
	}
}

func (s *Sock) reset(err error) {
	if s.rerr != nil || s.closed {
		return
	}
	s.rerr = err
	s.SawRST = err == syscall.ECONNRESET
	s.sbuf, s.inflight, s.infBytes = nil, nil, 0
	simrt.DelTimer(s.deathT)
	s.notify()
	s.waitW.WakeAll()
	if s.OnWrite != nil {
		s.OnWrite()
	}
}

// armDeath models retransmission timeouts and keepalive against a host that
// no longer answers.
func (s *Sock) armDeath() {
	if !s.peer.dead || s.closed || s.rerr != nil || s.deathT != nil {
		return
	}
	var d int64
	switch {
	case len(s.sbuf)+s.infBytes > 0:
		d = 924e9
	case s.Keepalive:
		d = 150e9
	default:
		return
	}
	s.deathT = simrt.AddTimer(simrt.PeekNs()+d, func() { s.deathT = nil; Counts["tcp_timeout"]++; s.reset(syscall.ETIMEDOUT) })
}

// Close is an orderly close; unread data turns it into a reset.
func (s *Sock) Close() {
	if s.closed {
		return
	}
	if s.rerr == nil && len(s.rbuf) > 0 {
		Counts["rst_unread_close"]++
		s.abort()
		return
	}
	s.closed = true
	s.sfin = true
	simrt.DelTimer(s.deathT)
	s.kick()
	s.waitR.WakeAll()
	s.waitW.WakeAll()
}

// CloseWrite sends a FIN but keeps reading.
func (s *Sock) CloseWrite() {
	if s.closed || s.sfin {
		return
	}
	s.sfin = true
	s.kick()
}

// Abort closes with a reset.
func (s *Sock) Abort() {
	if s.closed {
		return
	}
	Counts["reset"]++
	s.abort()
}

func (s *Sock) abort() {
	s.closed = true
	s.sbuf = nil
	s.sfin, s.finSent = true, true
	if s.rerr == nil && !s.dead {
		s.send(&item{rst: true})
	}
	s.waitR.WakeAll()
	s.waitW.WakeAll()
}

// Kill makes this endpoint believe that the other one has reset the connection.
func (s *Sock) Kill() {
	if s.closed || s.rerr != nil {
		return
	}
	Counts["kill"]++
	s.rbuf = nil
	s.reset(syscall.ECONNRESET)
}

// Vanish makes the host of this endpoint disappear without a word.
func (s *Sock) Vanish() {
	if s.dead || s.closed {
		return
	}
	Counts["vanish"]++
	s.dead = true
	s.closed = true
	s.sbuf = nil
	// what is already on the wire still arrives
	s.waitR.WakeAll()
	s.waitW.WakeAll()
	s.peer.armDeath()
}

// Stall holds back this endpoint's outgoing traffic.
func (s *Sock) Stall(d int64) {
	t := simrt.PeekNs() + d
	if t > s.stallTo {
		s.stallTo = t
	}
	Counts["stall"]++
}

// Partition holds back both directions.
func (s *Sock) Partition(d int64) {
	s.Stall(d)
	s.peer.Stall(d)
	Counts["partition"]++
}

// WaitRead parks until the socket is readable; false on deadline.
func (s *Sock) WaitRead(deadline int64) bool {
	for len(s.rbuf) == 0 && !s.rfin && s.rerr == nil && !s.closed {
		if deadline > 0 && simrt.PeekNs() >= deadline {
			return false
		}
		if !s.waitR.Wait("net read", deadline) {
			return len(s.rbuf) > 0 || s.rfin || s.rerr != nil || s.closed
		}
	}
	return true
}

// WaitWrite parks until the socket is writable; false on deadline.
func (s *Sock) WaitWrite(deadline int64) bool {
	for s.writable() == 0 && s.rerr == nil && !s.closed {
		if deadline > 0 && simrt.PeekNs() >= deadline {
			return false
		}
		if !s.waitW.Wait("net write", deadline) {
			return s.writable() > 0 || s.rerr != nil || s.closed
		}
	}
	return true
}

// ---------------------------------------------------------------- listening

// Lis is a listening socket.
type Lis struct {
	Addr    *net.TCPAddr
	q       []*Sock
	wait    simrt.WaitQ
	OnConn  func() // scheduler context
	closed  bool
	Backlog int
}

var listeners = map[int]*Lis{}

// DialFault decides what happens to a connection attempt: hang (no answer
// until timeout), an error, or an extra delay.
var DialFault func(addr string) (hang bool, err error, delay int64)

// Dialed sees every new connection before the other side does.
var Dialed func(addr string, c *Sock)

func ParseAddr(addr string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	var p int
	if _, err := fmt.Sscanf(port, "%d", &p); err != nil || p < 0 || p > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: port}
	}
	ip := net.ParseIP(host)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}

func ListenOn(addr string) (*Lis, error) {
	a, err := ParseAddr(addr)
	if err != nil {
		return nil, err
	}
	if l := listeners[a.Port]; l != nil && !l.closed {
		return nil, syscall.EADDRINUSE
	}
	l := &Lis{Addr: a, Backlog: 128}
	listeners[a.Port] = l
	return l, nil
}

func (l *Lis) Close() {
	if l.closed {
		return
	}
	l.closed = true
	if listeners[l.Addr.Port] == l {
		delete(listeners, l.Addr.Port)
	}
	for _, s := range l.q {
		s.Abort()
	}
	l.q = nil
	l.wait.WakeAll()
}

// TryAccept pops a pending connection.
func (l *Lis) TryAccept() *Sock {
	if len(l.q) == 0 {
		return nil
	}
	s := l.q[0]
	l.q = l.q[1:]
	return s
}

// Listening reports whether somebody listens on the port.
func Listening(port int) bool { l := listeners[port]; return l != nil && !l.closed }

// Accept blocks; nil when closed.
func (l *Lis) Accept(deadline int64) *Sock {
	for !l.closed {
		if s := l.TryAccept(); s != nil {
			return s
		}
		if !l.wait.Wait("net accept", deadline) {
			return l.TryAccept()
		}
	}
	return nil
}

// Connect dials; timeout in ns (0: the kernel's own).
func Connect(addr string, timeout int64) (*Sock, error) {
	return connect(addr, timeout)
}

func connect(addr string, timeout int64) (*Sock, error) {
	ra, err := ParseAddr(addr)
	if err != nil {
		return nil, err
	}
	portSeq++
	if portSeq > 60000 {
		portSeq = 40001
	}
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: portSeq}
	link := Default
	if LinkFor != nil {
		link = LinkFor(addr)
	}
	kt := int64(127e9)
	to := timeout
	if to <= 0 || to > kt {
		to = kt
	}
	start := simrt.NowNs()
	fail := func(d int64, e error) (*Sock, error) {
		if d > to {
			d, e = to, syscall.ETIMEDOUT
		}
		simrt.SleepNs(d)
		if e == syscall.ETIMEDOUT && timeout > 0 && timeout < kt {
			e = errTimeout
		}
		return nil, e
	}
	if DialFault != nil {
		hang, e, delay := DialFault(addr)
		if hang {
			Counts["dial_hang"]++
			return fail(1<<62, syscall.ETIMEDOUT)
		}
		if e != nil {
			Counts["dial_error"]++
			return fail(link.lat()*2, e)
		}
		if delay > 0 {
			if delay >= to {
				return fail(delay, syscall.ETIMEDOUT)
			}
			simrt.SleepNs(delay)
		}
	}
	simrt.SleepNs(link.lat())
	l := listeners[ra.Port]
	if l == nil || l.closed {
		Counts["dial_refused"]++
		return fail(link.lat(), syscall.ECONNREFUSED)
	}
	if len(l.q) >= l.Backlog {
		return fail(to-(simrt.NowNs()-start), syscall.ETIMEDOUT)
	}
	c, s := newPair(link, la, ra)
	if Dialed != nil {
		Dialed(addr, c)
	}
	simrt.AddTimer(simrt.PeekNs()+1000, func() {
		if l.closed {
			s.Abort()
			return
		}
		l.q = append(l.q, s)
		l.wait.WakeAll()
		if l.OnConn != nil {
			l.OnConn()
		}
	})
	simrt.SleepNs(link.lat())
	return c, nil
}
