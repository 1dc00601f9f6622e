package main

import (
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"harness/wire"
	"plan"
	"simrt"
	"simrt/simnet"
	"simrt/simos"
	"simrt/simsignal"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"
	"go.mongodb.org/mongo-driver/mongo"
)

// cout is one message the model gateway put on a connection.
type cout struct {
	kind      string
	seq       string
	end       int64
	at        int64
	delivered int64 // completely at the client, 0: not
	conn      *cconn
	stat      string
	acked     int64
}

// csub is one submit frame received by the model gateway.
type csub struct {
	at     int64
	p      *wire.PDU
	conn   *cconn
	status uint32
	msgid  string // as the client shows it
	rawid  string // as it is on the wire
	rsps   []*cout
	rpts   []*cout
	ambig  bool // answered with different ids
	rec    *crec
}

// cconn is one connection of the client, seen from the gateway.
type cconn struct {
	id       int
	gw       *cgw
	cli, srv *simnet.Sock
	openAt   int64
	split    wire.Splitter
	outs     []*cout
	stream   int64
	pend     int
	outbox   []byte
	outQ     simrt.WaitQ
	paused   bool
	pauseQ   simrt.WaitQ
	okOut    *cout // the response that accepts the login
	rejected int64
	faultAt  int64 // first trouble made on it
	junked   bool
	part     bool  // a truncated login response is on the way
	eofAt    int64 // the gateway saw the client's end
	endAt    int64 // the gateway ended it
	logins   int
	lastAt   int64
	acks     []*cout
	subs     []*csub
	leakTold bool
}

type cgw struct {
	plan.CGW
	idx     int
	addr    string
	max     int
	burst   int64
	tickNs  int64
	lis     *simnet.Lis
	conns   []*cconn
	bySrv   map[*simnet.Sock]*cconn
	ph      *plan.CPhase
	tried   bool
	lastBad int64
	r       *simrt.Rand
	used    map[string]bool
	lastID  []byte
	picks   int64
	open    bool
	re      *regexp.Regexp
}

// crec is what the harness knows about a result record.
type crec struct {
	r     *session.Result
	send  *csend
	idx   int
	subs  []*csub
	jn    int
	jat   int64
	extra bool
}

type csend struct {
	id         int
	kind       string
	phones     []string
	gws        []*cgw
	text       string
	enc        string
	opts       string
	invalid    bool // cannot be sent
	start, end int64
	qid        int64
	recs       []*crec
	got        bool  // the records were available
	limited    bool  // the rate limit may have refused it
	stopped    bool  // after a termination signal
	checkedAt  int64 // last successful query
}

type cworld struct {
	t0       int64          // the plan's times count from here
	held     int            // goroutines before the trouble
	heldBy   map[string]int // by where they were started
	p        *plan.Client
	gws      []*cgw
	conns    []*cconn
	sends    []*csend
	recs     map[*session.Result]*crec
	order    []*crec
	subs     []*csub
	stray    []*session.Result
	strayN   int
	journal  int
	batches  int
	calm     bool
	hostile  bool
	trouble  bool // anything at all may fail in this run
	stopAt   int64
	statAt   int64
	running  int
	doneQ    simrt.WaitQ
	seq      uint32
	end      bool
	nsend    int
	openLate int
}

var cw *cworld

func tns(t time.Time) int64 { return simrt.PeekNs() - int64(simrt.TimeNow().Sub(t)) }

// cslack bounds what the scheduler itself may add to a duration.
func cslack() int64 { return slack() + 2*sec }

func runClient(p *plan.Client) {
	cw = &cworld{p: p, recs: map[*session.Result]*crec{}}
	cw.trouble = len(p.Events) > 0
	dir := sms.ConfigYml.BasePath() + sms.ConfigYml.GetString("AuthClient.YamlFilePath")
	for i := range p.GWs {
		g := &cgw{CGW: p.GWs[i], idx: i, addr: fmt.Sprintf("10.0.0.%d:%d", i+1, 7890+i), bySrv: map[*simnet.Sock]*cconn{}, open: true, used: map[string]bool{}}
		seg := g.Segment
		if seg == "" {
			seg = "^" + g.Prefix
		}
		g.re, _ = regexp.Compile(seg)
		g.max = g.Max
		if g.max <= 0 {
			g.max = 2
		}
		g.burst = int64(g.Win)
		if g.burst <= 0 {
			g.burst = 16
		}
		g.tickNs = g.TickMs * ms
		if g.tickNs <= 0 {
			g.tickNs = sec
		}
		if len(g.Phases) > 0 || g.NoHB {
			cw.trouble = true
		}
		g.r = simrt.NewRand(spec.Sched.AppSeed ^ uint64(i+1)*7919)
		cw.gws = append(cw.gws, g)
		simos.Put(dir+"/"+g.Proto+"_"+g.ID+".yaml", []byte(credYaml(&g.Cred)))
	}
	byAddr := func(addr string) *cgw {
		for _, g := range cw.gws {
			if g.addr == addr {
				return g
			}
		}
		return nil
	}
	simnet.LinkFor = func(addr string) simnet.Link {
		if g := byAddr(addr); g != nil {
			return toLink(g.Link)
		}
		return simnet.Default
	}
	simnet.DialFault = func(addr string) (bool, error, int64) {
		g := byAddr(addr)
		if g == nil {
			return false, nil, 0
		}
		g.tried = true
		if cw.stopAt > 0 && simrt.PeekNs() > cw.stopAt+3*sec+cslack() {
			violate("P17", "dial-after-stop", "a new connection to %s is dialled %.1f s after the termination signal", g.Proto, float64(simrt.PeekNs()-cw.stopAt)/1e9)
		}
		if g.ph != nil && g.ph.K == "hang" {
			res.Faults["gw_hang"]++
			return true, nil, 0
		}
		return false, nil, 0
	}
	simnet.Dialed = func(addr string, s *simnet.Sock) {
		g := byAddr(addr)
		if g == nil {
			violate("P17", "strange-address", "the client connects to %s", addr)
			return
		}
		c := &cconn{id: len(cw.conns) + 1, gw: g, cli: s, srv: s.Peer(), openAt: simrt.PeekNs()}
		cw.conns = append(cw.conns, c)
		g.conns = append(g.conns, c)
		g.bySrv[c.srv] = c
		s.OnDeliver = c.arrived
		n := 0
		for _, x := range g.conns {
			if !x.cli.Closed() && !x.cli.PeerGone() {
				n++
			}
		}
		trace("g%d c%d dialled (%d open)", g.idx, c.id, n)
		if n > g.max {
			violate("P17", "too-many", "%d connections to %s open at the same time, configured are %d", n, g.Proto, g.max)
		}
		if n == g.max {
			probe("pool_full")
		}
		res.Info["conns"]++
	}
	for _, g := range cw.gws {
		g.listen()
	}
	simrt.Start()
	sut(func() { auth.Cache = auth.New(sms.ConfigYml) })
	mongo.InsertHook = func(d any) {
		if r, ok := d.(*session.Result); ok {
			cw.journaled(r)
		}
	}
	h := func(rs []any) {
		simrt.SetSys(true)
		cw.batches++
		for _, x := range rs {
			if r, ok := x.(*session.Result); ok {
				cw.journaled(r)
			} else {
				violate("P18", "journal-type", "the persistence handler receives a %T", x)
			}
		}
		if p.SlowMs > 0 {
			simrt.SleepNs(p.SlowMs * ms)
		}
		simrt.SetSys(false)
	}
	sut(func() {
		switch {
		case p.Mongo:
			sms.PersistenceSmsJournal()
		case p.Handler:
			sms.StartCacheExpireTicker(h)
		default:
			sms.StartCacheExpireTicker(nil)
		}
	})
	simrt.GoSUT(func() {
		simrt.Recv(sms.StatChan())
		cw.statAt = simrt.PeekNs()
	})
	for _, g := range cw.gws {
		simrt.GoSys(g.accept)
	}
	simrt.GoSys(cw.monitor)
	if p.Leaks {
		cw.heal()
		simrt.SleepNs(130 * sec) // what was only needed to begin with is gone
		cw.held, cw.heldBy = cw.holds(true)
		cw.t0 = simrt.PeekNs()
	}
	for _, g := range cw.gws {
		simrt.GoSys(g.phases)
	}
	simrt.GoSys(cw.events)
	if p.StopMs > 0 {
		simrt.GoSys(func() {
			simrt.SleepNs(p.StopMs * ms)
			cw.stop()
		})
	}
	for i := 0; i < p.Direct; i++ {
		i := i
		simrt.GoSUT(func() {
			for k := range cw.gws {
				g := cw.gws[(k+i)%len(cw.gws)]
				_ = sms.CreateSessionFactory(g.Proto)
			}
		})
	}
	cw.running = len(p.Senders)
	for i := range p.Senders {
		sd := &p.Senders[i]
		i := i
		simrt.GoSys(func() {
			simrt.SleepNs(sd.StartUs * 1000)
			for j, o := range sd.Ops {
				cw.op(i, j, o)
			}
			cw.running--
			cw.doneQ.WakeAll()
		})
	}
	for cw.running > 0 {
		if !cw.doneQ.Wait("senders", simrt.PeekNs()+5*sec) {
			cw.stuck()
		}
		if simrt.PeekNs() > 30*3600*sec {
			finish("harness", "senders do not finish")
		}
	}
	if d := cw.t0 + p.EndMs*ms - simrt.PeekNs(); d > 0 {
		simrt.SleepNs(d)
	}
	cw.calmDown()
	if cw.stopAt == 0 {
		cw.heal()
		if cw.stopAt == 0 {
			cw.finalSends()
		}
	}
	need := p.ExpireMs*ms + p.CheckMs*ms + cslack() + 5*sec + p.SlowMs*ms*int64(cw.batches+5)
	simrt.SleepNs(need)
	if p.Leaks {
		cw.leftovers()
	}
	cw.end = true
	cw.evaluate()
	if cw.stopAt == 0 {
		cw.stop()
	}
	cw.stopped()
}

// holds counts the client's goroutines, by where they were started, at the
// one of several moments when there were most (or fewest).
func (w *cworld) holds(most bool) (n int, by map[string]int) {
	for i := 0; i < 12; i++ {
		l := simrt.Live()
		if by == nil || most && len(l) > n || !most && len(l) < n {
			n, by = len(l), map[string]int{}
			for _, g := range l {
				by[g.Site]++
			}
		}
		simrt.SleepNs(int64(700+i*130) * ms)
	}
	return
}

// leftovers: with all trouble over and as many connections open as at the
// beginning, the client holds no more than it held at the beginning.
func (w *cworld) leftovers() {
	full := func() bool {
		for _, g := range w.gws {
			n := 0
			for _, c := range g.conns {
				if c.up() {
					n++
				}
			}
			if n != g.max {
				return false
			}
		}
		return true
	}
	if !full() {
		return
	}
	simrt.SleepNs(130 * sec)
	lost := false
	for _, g := range w.gws {
		n := 0
		for _, c := range g.conns {
			if c.cli.Closed() {
				lost = true
			} else {
				n++
			}
		}
		if n > g.max {
			violate("P27", "left-connection", "%d connections to %s are open when all is calm again, configured are %d", n, g.Proto, g.max)
		}
	}
	if !full() {
		return
	}
	n, by := w.holds(false)
	if lost {
		probe("replaced_compared")
	}
	if n <= w.held {
		return
	}
	what := []string{}
	for s := range by {
		if by[s] > w.heldBy[s] {
			what = append(what, fmt.Sprintf("%d at %s (%d before)", by[s], s, w.heldBy[s]))
		}
	}
	sort.Strings(what)
	violate("P27", "left-goroutine", "%d goroutines remain when all is calm again, %d before the trouble; started %s", n, w.held, strings.Join(what, ", "))
}

func (w *cworld) stop() {
	if w.stopAt > 0 {
		return
	}
	for i := 0; simsignal.Registered(syscall.SIGTERM) < 2 && i < 3000; i++ { // the two packages ask for it in goroutines of their init
		simrt.SleepNs(ms)
		if w.stopAt > 0 {
			return
		}
	}
	w.stopAt = simrt.PeekNs()
	trace("termination signal")
	probe("stop")
	simsignal.Deliver(syscall.SIGTERM)
}

// ---------------------------------------------------------------- gateways

func (g *cgw) listen() {
	l, err := simnet.ListenOn(g.addr)
	if err != nil {
		finish("harness", err.Error())
	}
	g.lis = l
}

func (g *cgw) accept() {
	for {
		l := g.lis
		s := l.Accept(0)
		if s == nil {
			for g.lis == l { // closed: wait for the next listener
				simrt.SleepNs(ms)
			}
			continue
		}
		c := g.bySrv[s]
		if c == nil {
			continue
		}
		simrt.GoSys(c.serve)
		simrt.GoSys(c.writer)
	}
}

func (g *cgw) bad() { g.lastBad = simrt.PeekNs() }

func (g *cgw) phases() {
	for i := range g.Phases {
		ph := &g.Phases[i]
		if d := cw.t0 + ph.AtMs*ms - simrt.PeekNs(); d > 0 {
			simrt.SleepNs(d)
		}
		trace("g%d phase %s for %d ms", g.idx, ph.K, ph.ForMs)
		res.Faults["gw_"+ph.K]++
		g.ph = ph
		g.bad()
		if ph.K == "down" {
			old := g.lis
			old.Close()
			for _, c := range g.conns {
				c.fault()
				c.abort()
			}
		}
		simrt.SleepNs(ph.ForMs * ms)
		if ph.K == "down" {
			g.listen()
		}
		g.ph = nil
		g.bad()
	}
}

func (c *cconn) fault() {
	c.gw.bad()
	if c.faultAt == 0 {
		c.faultAt = simrt.PeekNs()
		probe("conn_fault")
	}
}

func (c *cconn) abort() {
	if c.endAt == 0 {
		c.endAt = simrt.PeekNs()
	}
	c.srv.Abort()
	c.outQ.WakeAll()
	c.pauseQ.WakeAll()
}

func (c *cconn) finish() {
	if c.endAt == 0 {
		c.endAt = simrt.PeekNs()
	}
	c.srv.Close()
	c.outQ.WakeAll()
	c.pauseQ.WakeAll()
}

// up: usable from the gateway's point of view.
func (c *cconn) up() bool {
	return c.okOut != nil && c.okOut.delivered > 0 && c.eofAt == 0 && c.endAt == 0 && !c.srv.Closed() && !c.cli.Closed() && !c.cli.PeerGone()
}

func (c *cconn) live() bool { return c.eofAt == 0 && c.endAt == 0 && !c.srv.Closed() }

func (c *cconn) arrived(total int64) {
	for c.pend < len(c.outs) && c.outs[c.pend].end <= total {
		c.outs[c.pend].delivered = simrt.PeekNs()
		c.pend++
	}
}

func (c *cconn) put(kind string, q wire.Seq, raw []byte) *cout {
	o := &cout{kind: kind, seq: q.Text(c.gw.Proto), at: simrt.PeekNs(), conn: c}
	c.stream += int64(len(raw))
	o.end = c.stream
	c.outs = append(c.outs, o)
	c.outbox = append(c.outbox, raw...)
	c.outQ.WakeAll()
	return o
}

func (c *cconn) writer() {
	for {
		for len(c.outbox) == 0 {
			if !c.live() {
				return
			}
			c.outQ.Wait("outbox", 0)
		}
		if c.srv.Closed() {
			return
		}
		n, err := c.srv.TryWrite(c.outbox)
		if n > 0 {
			c.outbox = c.outbox[n:]
		}
		if err != nil && n == 0 {
			if err != syscall.EAGAIN || c.srv.Closed() || c.srv.Err() != nil || c.srv.Dead() {
				return
			}
			if !c.srv.WaitWrite(simrt.PeekNs()+600*sec) || c.srv.Err() != nil {
				return
			}
		}
	}
}

func (c *cconn) serve() {
	g := c.gw
	if ph := g.ph; ph != nil {
		switch ph.K {
		case "drop":
			c.fault()
			if g.r.Bool(0.5) {
				c.abort()
			} else {
				c.finish()
			}
			return
		case "junk":
			c.junk(ph.S)
		}
	}
	buf := make([]byte, 4096)
	for {
		for c.paused && c.live() {
			c.pauseQ.Wait("paused", 0)
		}
		c.srv.WaitRead(0)
		if c.srv.Closed() || c.srv.Dead() {
			return
		}
		if c.paused {
			continue
		}
		n, err := c.srv.TryRead(buf)
		if n > 0 {
			for _, raw := range c.split.Feed(buf[:n]) {
				c.receive(raw)
			}
			if c.split.Bad != "" {
				violate("P19,P16", "broken-frame", "c%d to %s: the client's stream is not a sequence of frames: %s", c.id, g.Proto, c.split.Bad)
				c.fault()
				c.abort()
				return
			}
			continue
		}
		if err == nil || err == syscall.EAGAIN {
			continue
		}
		c.eofAt = simrt.PeekNs()
		trace("g%d c%d end of stream: %v", g.idx, c.id, err)
		c.outQ.WakeAll()
		if c.up0() && c.faultAt == 0 && c.endAt == 0 && cw.stopAt == 0 {
			violate("P16,P17", "closes-healthy", "the client closes a logged-in connection to %s on which the gateway did nothing wrong", g.Proto)
		}
		c.srv.Close()
		return
	}
}

func (c *cconn) up0() bool { return c.okOut != nil && c.okOut.delivered > 0 }

func (w *cworld) next() uint32 {
	w.seq++
	return w.seq*2654435761 ^ uint32(spec.Seed)
}

func (c *cconn) newSeq() wire.Seq {
	n := cw.next()
	if c.gw.Proto == wire.SGIP {
		return wire.Seq{10000, 305080000 + n%1000, n}
	}
	return wire.N(n)
}

func (c *cconn) later(d int64, f func()) {
	simrt.GoSys(func() {
		simrt.SleepNs(d)
		if c.live() {
			f()
		}
	})
}

func (c *cconn) receive(raw []byte) {
	g := c.gw
	v3 := v3of(&g.Cred)
	p := wire.Parse(g.Proto, v3, raw)
	trace("g%d c%d receives %s %s %s", g.idx, c.id, p.Kind, p.Seq, p.Err)
	if p.Err != "" && (!c.junked || p.Kind == wire.Submit) {
		violate("P19,P16", "broken-frame", "c%d to %s: %s frame from the client: %s (%s)", c.id, g.Proto, p.Kind, p.Err, cut(hex.EncodeToString(raw), 120))
		return
	}
	q := wire.SeqOf(g.Proto, pad(raw, wire.HeadLen(g.Proto)))
	switch p.Kind {
	case wire.Login:
		c.login(p, q)
	case wire.Submit:
		c.submit(p, q)
	case wire.Active:
		probe("client_heartbeat")
		if !cw.calm && g.NoHB {
			c.fault()
			return
		}
		c.put(wire.ActiveRsp, q, wire.Simple(g.Proto, wire.ActiveRsp, q))
	case wire.ActiveRsp, wire.DeliverRp:
		for _, o := range c.acks {
			if o.seq == p.Seq && o.acked == 0 {
				o.acked = simrt.PeekNs()
				break
			}
		}
	case wire.Term:
		probe("client_term")
		c.put(wire.TermRsp, q, wire.Simple(g.Proto, wire.TermRsp, q))
	}
}

func pad(b []byte, n int) []byte {
	for len(b) < n {
		b = append(append([]byte{}, b...), make([]byte, n-len(b))...)
	}
	return b
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *cconn) login(p *wire.PDU, q wire.Seq) {
	g := c.gw
	c.logins++
	ok := true
	switch g.Proto {
	case wire.SGIP:
		ok = p.Name == g.Name && p.Secret == g.Secret
	default:
		ok = p.Name == g.ID && string(p.Auth) == string(wire.Authenticator(g.Proto, g.ID, g.Secret, p.TS)) && p.Ver == byte(g.Ver)
	}
	if !ok || c.logins > 1 {
		violate("P17", "bad-login", "login to %s with wrong credentials, or a second one (%s, version %#x)", g.Proto, p.Name, p.Ver)
	}
	answer := func(st uint32) []byte {
		b := wire.LoginRspPDU(g.Proto, v3of(&g.Cred), q, st, byte(g.Ver))
		if g.Proto == wire.SGIP && g.Spec29 {
			b = append(b, make([]byte, 8)...)
			b[3] = byte(len(b))
		}
		return b
	}
	accept := func() {
		c.okOut = c.put(wire.LoginRsp, q, answer(0))
		trace("g%d c%d accepts the login", g.idx, c.id)
		if g.HBMs > 0 && g.Proto != wire.SGIP {
			simrt.GoSys(func() { c.chat(g.HBMs, wire.Active) })
		}
		if g.MOMs > 0 && g.Proto != wire.SGIP {
			simrt.GoSys(func() { c.chat(g.MOMs, wire.Deliver) })
		}
	}
	ph := g.ph
	if ph == nil {
		accept()
		return
	}
	switch ph.K {
	case "reject", "rejclose":
		c.fault()
		c.rejected = simrt.PeekNs()
		c.put(wire.LoginRsp, q, answer(uint32(1+g.r.Intn(5))))
		if ph.K == "rejclose" {
			c.later(g.r.Range(0, 20)*ms, c.finish)
		}
	case "mute", "hang":
		c.fault()
	case "junk":
		c.fault()
		if ph.S == "login_short" || ph.S == "trunc" || g.r.Bool(0.5) {
			c.junk(ph.S)
		} else {
			accept()
		}
	case "slow":
		c.later(ph.A*ms, accept)
	case "partial":
		b := answer(0)
		if int(ph.A) >= len(b) {
			accept()
			return
		}
		c.fault()
		c.part = true
		c.put(wire.LoginRsp, q, b[:ph.A])
	default:
		accept()
	}
}

// chat sends heartbeats or messages from mobile users.
func (c *cconn) chat(every int64, kind string) {
	g := c.gw
	for !cw.end && cw.stopAt == 0 {
		simrt.SleepNs(g.r.Range(every/2, every+every/2) * ms)
		if cw.calm && every < 3000 {
			simrt.SleepNs(10 * sec)
		}
		if !c.live() {
			return
		}
		q := c.newSeq()
		var b []byte
		if kind == wire.Active {
			b = wire.Simple(g.Proto, kind, q)
		} else {
			b = wire.DeliverPDU(g.Proto, v3of(&g.Cred), q, g.Prefix+"00001234", g.Display, 0, []byte("TD"+strings.Repeat("x", g.r.Intn(100))))
		}
		o := c.put(kind, q, b)
		c.acks = append(c.acks, o)
		probe("gw_" + kind)
	}
}

func (g *cgw) newID(zero bool) (raw, shown string, n []byte) {
	k := 8
	if g.Proto == wire.SMGP {
		k = 10
	}
	b := make([]byte, k)
	for n := 0; !zero; n++ {
		if g.lastID != nil && n < 8 && g.r.Bool(0.5) {
			// differs from the previous one in a single byte
			copy(b, g.lastID)
			b[g.r.Intn(k)] ^= byte(1 + g.r.Intn(255))
			probe("near_id")
		} else {
			for i := range b {
				b[i] = byte(g.r.U64() >> 24)
			}
			if g.r.Bool(0.2) {
				b[0] = 0
			}
		}
		if h := hex.EncodeToString(b); !g.used[h] {
			g.used[h] = true
			g.lastID = append([]byte{}, b...)
			break
		}
	}
	h := hex.EncodeToString(b)
	return h, h, b
}

func (c *cconn) submit(p *wire.PDU, q wire.Seq) {
	g := c.gw
	s := &csub{at: simrt.PeekNs(), p: p, conn: c}
	c.subs = append(c.subs, s)
	cw.subs = append(cw.subs, s)
	if !c.up0() && c.okOut == nil && !c.junked && !c.part {
		violate("P17,P19", "submit-before-login", "c%d: a submit arrives at %s on a connection that is not logged in", c.id, g.Proto)
	}
	if !cw.calm && g.r.Bool(g.FailP) {
		s.status = uint32(1 + g.r.Intn(99))
	}
	s.rawid, s.msgid, _ = g.newID(s.status != 0 && g.r.Bool(0.5))
	if g.Proto == wire.SGIP {
		s.msgid = fmt.Sprintf("%010d%010d%08x", q[0], q[1], q[2])
	}
	if !cw.calm && g.r.Bool(g.NoRsp) {
		probe("no_response")
		return
	}
	now := simrt.PeekNs()
	at := now + g.r.Range(g.RspMin, g.RspMax)*1000
	if !g.Reorder {
		if at < c.lastAt {
			at = c.lastAt
		}
		c.lastAt = at
	}
	if at <= now {
		c.respond(s, q)
	} else {
		c.later(at-now, func() { c.respond(s, q) })
	}
}

func (c *cconn) respond(s *csub, q wire.Seq) {
	g := c.gw
	v3 := v3of(&g.Cred)
	o := c.put(wire.SubmitRsp, q, wire.SubmitRspPDU(g.Proto, v3, q, s.rawid, s.status))
	s.rsps = append(s.rsps, o)
	trace("g%d c%d answers %s status %d id %s", g.idx, c.id, s.p.Seq, s.status, s.rawid)
	if cw.calm {
		return
	}
	if g.r.Bool(g.DupRsp) {
		res.Faults["dup_response"]++
		raw := s.rawid
		if g.Proto != wire.SGIP && g.r.Bool(0.15) {
			raw, _, _ = g.newID(false)
			s.ambig = true
			res.Faults["second_id"]++
		}
		c.later(g.r.Range(0, 300_000)*1000, func() {
			s.rsps = append(s.rsps, c.put(wire.SubmitRsp, q, wire.SubmitRspPDU(g.Proto, v3, q, raw, s.status)))
		})
	}
	if g.r.Bool(g.Unknown) {
		res.Faults["unknown_response"]++
		u := c.newSeq()
		ur, _, _ := g.newID(false)
		c.put(wire.SubmitRsp, u, wire.SubmitRspPDU(g.Proto, v3, u, ur, uint32(g.r.Intn(3))))
	}
	if g.Proto == wire.SGIP || s.status != 0 || s.p.Need == 0 || g.r.Bool(g.NoRpt) {
		return
	}
	d := g.r.Range(g.RptMin, g.RptMax) * 1000
	stats := []string{"DELIVRD", "UNDELIV", "EXPIRED", "REJECTD", "UNKNOWN", "DELETED"}
	final := stats[g.r.Intn(len(stats))]
	other := g.r.Bool(g.Other)
	if other {
		d += 3*sec + 8*spec.Sched.StallMaxUs*1000 + 2*g.Link.LatMaxUs*1000
	}
	if g.r.Bool(g.Two) {
		probe("intermediate_report")
		c.report(s, o, g.r.Range(0, d), false, "ACCEPTD")
	}
	c.report(s, o, d, other, final)
	if g.r.Bool(g.DupRpt) {
		res.Faults["dup_report"]++
		c.report(s, o, d+g.r.Range(1, 500)*ms, false, final)
	}
	if g.r.Bool(g.Unknown) {
		res.Faults["unknown_report"]++
		ur, _, _ := g.newID(false)
		u := c.newSeq()
		c.acks = append(c.acks, c.put(wire.Report, u, wire.ReportPDU(g.Proto, v3, u, ur, g.Display, s.p.Dests[0], "UNDELIV")))
	}
}

// report sends a delivery report, on another connection only when the
// response has long been delivered.
func (c *cconn) report(s *csub, rsp *cout, d int64, other bool, stat string) {
	g := c.gw
	simrt.GoSys(func() {
		simrt.SleepNs(d)
		t := c
		if other || !c.live() {
			margin := 2*sec + 6*spec.Sched.StallMaxUs*1000
			if rsp.delivered == 0 || simrt.PeekNs()-rsp.delivered < margin || len(s.rpts) > 0 {
				if !c.live() || len(s.rpts) > 0 && s.rpts[len(s.rpts)-1].conn != c {
					return
				}
			} else {
				for _, x := range g.conns {
					if x != c && x.up() && x.faultAt == 0 {
						t = x
						probe("report_elsewhere")
						break
					}
				}
			}
		}
		if !t.live() || cw.end {
			return
		}
		// keep the order: never after a report on another connection
		for _, o := range s.rpts {
			if o.conn != t {
				return
			}
		}
		u := t.newSeq()
		o := t.put(wire.Report, u, wire.ReportPDU(g.Proto, v3of(&g.Cred), u, s.rawid, g.Display, s.p.Dests[0], stat))
		o.stat = stat
		s.rpts = append(s.rpts, o)
		t.acks = append(t.acks, o)
		trace("g%d c%d reports %s %s", g.idx, t.id, s.rawid, stat)
	})
}

// ---------------------------------------------------------------- trouble

func (w *cworld) events() {
	evs := append([]plan.CEvent{}, w.p.Events...)
	for i := range evs {
		for j := i + 1; j < len(evs); j++ {
			if evs[j].AtMs < evs[i].AtMs {
				evs[i], evs[j] = evs[j], evs[i]
			}
		}
	}
	for _, e := range evs {
		if d := w.t0 + e.AtMs*ms - simrt.PeekNs(); d > 0 {
			simrt.SleepNs(d)
		}
		if w.calm {
			return
		}
		g := w.gws[e.GW%len(w.gws)]
		g.bad()
		var up []*cconn
		for _, c := range g.conns {
			if c.live() {
				up = append(up, c)
			}
		}
		if len(up) == 0 {
			continue
		}
		if e.N >= 0 {
			up = []*cconn{up[e.N%len(up)]}
		}
		for _, c := range up {
			c := c
			trace("g%d c%d event %s", g.idx, c.id, e.K)
			c.fault()
			switch e.K {
			case "reset":
				c.abort()
			case "close":
				c.finish()
			case "vanish":
				c.srv.Vanish()
				c.endAt = simrt.PeekNs()
				c.outQ.WakeAll()
			case "stall":
				c.srv.Stall(e.A * ms)
			case "partition":
				c.srv.Partition(e.A * ms)
			case "deaf":
				res.Faults["deaf"]++
				c.paused = true
				simrt.AddTimer(simrt.PeekNs()+e.A*ms, func() { c.paused = false; c.pauseQ.WakeAll() })
			case "junk":
				c.junk(e.S)
			case "term":
				res.Faults["gw_term"]++
				q := c.newSeq()
				c.put(wire.Term, q, wire.Simple(g.Proto, wire.Term, q))
				c.later(2*sec, c.finish)
			}
		}
	}
}

// junk sends what no well-behaved gateway sends.
func (c *cconn) junk(kind string) {
	g := c.gw
	c.fault()
	c.junked = true
	cw.hostile = true
	probe("hostile_gateway")
	res.Faults["junk_"+kind]++
	r := g.r
	v3 := v3of(&g.Cred)
	q := c.newSeq()
	frame := func(cmd uint32, n int) []byte {
		b := make([]byte, 12+n)
		be(b, uint32(len(b)))
		be(b[4:], cmd)
		be(b[8:], cw.next())
		for i := 12; i < len(b); i++ {
			b[i] = byte(r.U64())
		}
		return b
	}
	kinds := []string{wire.LoginRsp, wire.SubmitRsp, wire.Deliver, wire.Active, wire.ActiveRsp, wire.Term, wire.TermRsp, wire.Submit, wire.Login, wire.DeliverRp, wire.Report}
	valid := func() []byte {
		id, _, _ := g.newID(false)
		switch r.Intn(6) {
		case 0:
			return wire.SubmitRspPDU(g.Proto, v3, q, id, 0)
		case 1:
			return wire.ReportPDU(g.Proto, v3, q, id, g.Display, g.Prefix+"00000000", "DELIVRD")
		case 2:
			return wire.DeliverPDU(g.Proto, v3, q, g.Prefix+"00000000", g.Display, byte(r.Intn(3)*4), []byte(strings.Repeat("y", r.Intn(140))))
		case 3:
			return wire.LoginRspPDU(g.Proto, v3, q, 0, byte(g.Ver))
		case 4:
			return wire.Simple(g.Proto, wire.Active, q)
		}
		return wire.Simple(g.Proto, wire.Term, q)
	}
	var b []byte
	switch kind {
	case "rand":
		b = frame(0, r.Intn(64))
		for i := range b {
			b[i] = byte(r.U64())
		}
	case "len0":
		b = frame(wire.Cmd(g.Proto, wire.SubmitRsp), 9)
		be(b, 0)
	case "lenbig":
		b = frame(wire.Cmd(g.Proto, wire.SubmitRsp), 9)
		be(b, uint32(r.Pick([]int64{0x7fffffff, 0xffffffff, 0x80000000, 100000, 9000})))
	case "lensmall":
		b = frame(wire.Cmd(g.Proto, wire.SubmitRsp), 9)
		be(b, uint32(r.Intn(12)))
	case "head":
		b = frame(wire.Cmd(g.Proto, kinds[r.Intn(len(kinds))]), 0)
	case "unknown":
		v := uint32(r.U64())
		if r.Bool(0.6) { // near the defined ones
			v = uint32(r.Intn(40)) | uint32(r.Intn(2))<<31
		}
		b = frame(v, r.Intn(40))
	case "trunc":
		b = valid()
		if r.Bool(0.5) {
			b = frame(wire.Cmd(g.Proto, kinds[r.Intn(len(kinds))]), r.Intn(200))
		} else if n := 12 + r.Intn(len(b)-11); n < len(b) {
			b = b[:n]
			be(b, uint32(n))
		}
	case "mut":
		b = valid()
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := 4 + r.Intn(len(b)-4)
			if r.Bool(0.2) {
				i = r.Intn(len(b))
			}
			b[i] = byte(r.Pick([]int64{0, 1, 0x7f, 0x80, 0xff, int64(r.Intn(256))}))
		}
	case "login_bad":
		b = wire.LoginRspPDU(g.Proto, v3, q, uint32(1+r.Intn(9)), byte(g.Ver))
	case "login_short":
		b = frame(wire.Cmd(g.Proto, wire.LoginRsp), r.Intn(9))
	case "login_ok":
		b = wire.LoginRspPDU(g.Proto, v3, q, 0, byte(g.Ver))
	case "zero":
		b = make([]byte, 12+r.Intn(40))
	case "half":
		b = valid()
		b = b[:r.Intn(len(b))]
	case "bigbody":
		b = frame(wire.Cmd(g.Proto, kinds[r.Intn(len(kinds))]), 900+r.Intn(7000))
	case "unknown_submit":
		id, _, _ := g.newID(false)
		b = wire.SubmitRspPDU(g.Proto, v3, q, id, 0)
	case "selfterm":
		b = wire.Simple(g.Proto, wire.TermRsp, q)
	}
	if len(b) > 0 {
		c.put("junk", q, b)
	}
}

func be(b []byte, v uint32) { b[0], b[1], b[2], b[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v) }

func (w *cworld) calmDown() {
	w.calm = true
	for _, g := range w.gws {
		for _, c := range g.conns {
			if c.junked && c.live() {
				c.finish()
			}
		}
	}
	trace("calm")
}

// ---------------------------------------------------------------- senders

func buildText(kind string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch kind {
		case "a":
			b.WriteByte(byte('a' + i%26))
		case "c":
			b.WriteRune(rune(0x4e00 + i%2000))
		case "m":
			if i%3 == 0 {
				b.WriteRune(rune(0x5000 + i%900))
			} else {
				b.WriteByte(byte('A' + i%26))
			}
		case "l":
			b.WriteRune(rune(0xe0 + i%24))
		case "e":
			if i%2 == 0 {
				b.WriteRune(rune(0x1f600 + i%60))
			} else {
				b.WriteByte(byte('0' + i%10))
			}
		case "t": // Chinese only at the very end
			if i >= n-3 {
				b.WriteRune(rune(0x4f60 + i%1000))
			} else {
				b.WriteByte(byte('a' + i%26))
			}
		case "h": // Chinese only at the beginning
			if i < 2 {
				b.WriteRune(rune(0x4f60 + i%1000))
			} else {
				b.WriteByte(byte('a' + i%26))
			}
		case "o": // one wide character somewhere
			if i == n*2/3 {
				b.WriteRune(rune(0x20ac))
			} else {
				b.WriteByte(byte(' ' + i%95))
			}
		case "z": // every ASCII value
			b.WriteByte(byte(i % 128))
		case "g": // two, four and one byte in GB18030
			b.WriteRune([]rune{0x4e2d, 0x0e01, 'x', 0x1f680, 0x20ac}[i%5])
		case "x":
			b.WriteRune(rune(0x4e00 + i%2000))
			if i == n-1 {
				b.WriteByte(0xff)
			}
		}
	}
	return b.String()
}

func options(s string) (out []codec.OptionFunc) {
	if strings.Contains(s, "m") {
		out = append(out, codec.WithMtOptions(&codec.MtOptions{NeedReport: 0, MsgLevel: 5, FeeUsertype: 0xf, FeeTerminalType: 0xf, ServiceId: "mopt"}))
	}
	for _, o := range strings.Split(s, ".") {
		switch o {
		case "r0":
			out = append(out, codec.MtNeedReport(0))
		case "r1":
			out = append(out, codec.MtNeedReport(1))
		case "p":
			out = append(out, codec.MtMsgLevel(3))
		case "p0":
			out = append(out, codec.MtMsgLevel(0))
		case "s":
			out = append(out, codec.MtSpSubNo("77"))
		case "v":
			out = append(out, codec.MtValidTime("260306010203032+"))
		case "f":
			out = append(out, codec.MtServiceId("svx"))
		case "t":
			out = append(out, codec.MtAtTimeStr("260305235959"))
		case "l":
			out = append(out, codec.MtLinkID("link42"))
		}
	}
	return
}

func (w *cworld) op(i, j int, o plan.Op) {
	switch o.K {
	case "sleep":
		simrt.SleepNs(o.A * 1000)
	case "nophone":
		var q int64
		sut(func() { q = sms.SendN("hello", nil) })
		if q != 0 {
			var rs []any
			sut(func() { rs = sms.Query(q) })
			if len(rs) > 0 {
				violate("P18", "records-for-nothing", "a send to nobody has %d records", len(rs))
			}
		}
	case "query":
		var rs []any
		id := int64(w.next())
		sut(func() { rs = sms.Query(id) })
		if rs != nil {
			violate("P18", "query-unknown", "a query for an id never returned yields %d records", len(rs))
		}
		if n := len(w.sends); n > 0 {
			w.query(w.sends[int(w.next())%n])
		}
	case "send", "sendn":
		f := strings.Split(o.S, ":")
		n := 0
		fmt.Sscan(f[1], &n)
		s := &csend{kind: o.K, text: buildText(f[0], n), enc: f[0], opts: f[2]}
		if o.K == "send" {
			g := w.gws[int(o.A)%len(w.gws)]
			s.phones = []string{fmt.Sprintf("%s%08d", g.Prefix, o.B)}
			s.gws = []*cgw{w.route(s.phones[0])}
		} else {
			for k := int64(0); k < o.B; k++ {
				g := w.gws[int(k)%len(w.gws)]
				if o.A >= 0 {
					g = w.gws[int(o.A)%len(w.gws)]
				}
				if k%11 == 7 { // nobody's number
					s.phones = append(s.phones, fmt.Sprintf("150%08d", k))
					s.gws = append(s.gws, nil)
					continue
				}
				s.phones = append(s.phones, fmt.Sprintf("%s%04d%04d", g.Prefix, i, j*100+int(k)))
				s.gws = append(s.gws, w.route(s.phones[len(s.phones)-1]))
			}
		}
		w.send(s)
	case "sendto": // B numbers whose beginnings are listed
		f := strings.Split(o.S, ":")
		n := 0
		fmt.Sscan(f[1], &n)
		s := &csend{kind: "sendn", text: buildText(f[0], n), enc: f[0], opts: f[2]}
		if o.B == 1 {
			s.kind = "send"
		}
		pre := strings.Split(f[3], ",")
		for k := 0; k < int(o.B); k++ {
			ph := fmt.Sprintf("%s%04d%04d", pre[k%len(pre)], i, (j*100+k)%10000)
			s.phones = append(s.phones, ph)
			s.gws = append(s.gws, w.route(ph))
		}
		w.send(s)
	}
}

// route is the operator a number belongs to: the first whose segment matches.
func (w *cworld) route(ph string) *cgw {
	for _, p := range []string{wire.CMPP, wire.SGIP, wire.SMGP} {
		for _, g := range w.gws {
			if g.Proto == p && g.re != nil && g.re.MatchString(ph) {
				return g
			}
		}
	}
	return nil
}

func (w *cworld) send(s *csend) {
	s.id = len(w.sends)
	w.sends = append(w.sends, s)
	s.invalid = unsendable(s)
	for _, g := range s.gws {
		if g != nil {
			g.picks++
			if g.picks > g.burst {
				// whichever of the sends under way comes last is refused
				for _, o := range w.sends {
					if o.end == 0 {
						for _, og := range o.gws {
							if og == g {
								o.limited = true
							}
						}
					}
				}
			}
		}
	}
	if w.stopAt > 0 {
		s.stopped = true
	}
	s.start = simrt.PeekNs()
	opts := options(s.opts)
	trace("send %d to %v %q (%d bytes) %s", s.id, first3(s.phones), cut(s.text, 12), len(s.text), s.opts)
	var rs []any
	sut(func() {
		if s.kind == "send" {
			s.qid = sms.Send(s.text, s.phones[0], opts...)
		} else {
			s.qid = sms.SendN(s.text, s.phones, opts...)
		}
		s.end = simrt.PeekNs()
		rs = sms.Query(s.qid)
	})
	if w.stopAt > 0 {
		s.stopped = true
	}
	trace("send %d returns %d records", s.id, len(rs))
	res.Info["sends"]++
	if len(rs) > 0 {
		w.adopt(s, rs)
	}
	lim := (60 + 30*int64(len(s.phones))) * sec
	if !w.trouble {
		lim = 10*sec + int64(len(s.phones))*200*ms
	}
	if d := s.end - s.start; d > lim+cslack() {
		violate("P17", "slow-send", "a send to %d numbers takes %.1f s", len(s.phones), float64(d)/1e9)
	}
}

func first3(p []string) []string {
	if len(p) > 3 {
		return p[:3]
	}
	return p
}

// adopt notes the records of a send.
func (w *cworld) adopt(s *csend, rs []any) {
	s.got = true
	s.checkedAt = simrt.PeekNs()
	for i, x := range rs {
		r, ok := x.(*session.Result)
		if !ok || r == nil {
			violate("P18", "query-type", "a query yields a %T", x)
			continue
		}
		if k := w.recs[r]; k != nil {
			if k.send != s && k.send != nil {
				violate("P18", "foreign-record", "the query of send %d yields a record of send %d", s.id, k.send.id)
			}
			if k.send != nil {
				continue
			}
			k.send, k.idx = s, i
			s.recs = append(s.recs, k)
			continue
		}
		k := &crec{r: r, send: s, idx: i}
		w.recs[r] = k
		w.order = append(w.order, k)
		s.recs = append(s.recs, k)
		res.Info["records"]++
	}
}

// query asks for an earlier send.
func (w *cworld) query(s *csend) {
	if s.end == 0 || !s.got {
		return
	}
	var rs []any
	t0 := simrt.PeekNs()
	sut(func() { rs = sms.Query(s.qid) })
	now := simrt.PeekNs()
	exp := tns(s.first()) + w.p.ExpireMs*ms
	if rs == nil {
		if now < exp {
			violate("P18", "query-early-gone", "send %d cannot be queried %.3f s before its expiry", s.id, float64(exp-now)/1e9)
		}
		return
	}
	probe("query_hit")
	_ = t0
	if len(rs) != len(s.recs) {
		violate("P18", "query-changed", "send %d: a query yields %d records, first %d", s.id, len(rs), len(s.recs))
		return
	}
	for i, x := range rs {
		r := x.(*session.Result)
		if s.recs[i].r != r && (s.recs[i].r.SequenceId != r.SequenceId || r.Phone != s.recs[i].r.Phone) {
			violate("P18", "query-changed", "send %d: record %d is another one than before", s.id, i)
		}
		if r.QueryId != s.qid {
			violate("P18", "query-id", "a record of send %d shows query id %d, returned was %d", s.id, r.QueryId, s.qid)
		}
	}
}

// first is the send time of the earliest record.
func (s *csend) first() time.Time {
	t := s.recs[0].r.SendTime
	for _, k := range s.recs {
		if k.r.SendTime.Before(t) {
			t = k.r.SendTime
		}
	}
	return t
}

func (w *cworld) journaled(r *session.Result) {
	now := simrt.PeekNs()
	w.journal++
	k := w.recs[r]
	if k == nil {
		k = &crec{r: r}
		w.recs[r] = k
		w.order = append(w.order, k)
	}
	k.jn++
	if k.jn > 1 {
		violate("P18", "journaled-twice", "record %d (%s) is handed over %d times", r.SequenceId, r.Phone, k.jn)
		return
	}
	k.jat = now
}

// stuck watches senders that do not come back.
func (w *cworld) stuck() {
	now := simrt.PeekNs()
	for _, s := range w.sends {
		if s.end == 0 && now-s.start > (180+60*int64(len(s.phones)))*sec+cslack() {
			violate("P17", "stuck-send", "a send to %d numbers has not returned after %.0f s", len(s.phones), float64(now-s.start)/1e9)
			finish("done", "")
		}
	}
}

// ---------------------------------------------------------------- watching

func (w *cworld) monitor() {
	for !w.end {
		simrt.SleepNs(sec)
		w.look()
	}
}

// look finds connections the client should have closed.
func (w *cworld) look() {
	now := simrt.PeekNs()
	for _, g := range w.gws {
		for _, c := range g.conns {
			if c.cli.Closed() || c.leakTold {
				continue
			}
			if c.cli.PeerGone() {
				if c.openLateSince() > 0 && now-c.openLateSince() > 10*sec+2*g.tickNs+cslack() {
					c.leakTold = true
					violate("P17", "dead-not-closed", "c%d to %s: the gateway ended the connection %.0f s ago, the client has not closed it", c.id, g.Proto, float64(now-c.openLateSince())/1e9)
				}
				continue
			}
			if c.rejected > 0 && now-c.rejected > 30*sec+cslack()+spike(g) {
				c.leakTold = true
				violate("P17", "refused-not-closed", "c%d to %s: login refused %.0f s ago, the client has not closed the connection", c.id, g.Proto, float64(now-c.rejected)/1e9)
			} else if c.okOut == nil && !c.junked && !c.part && now-c.openAt > 90*sec+cslack()+spike(g) {
				c.leakTold = true
				violate("P17", "pending-not-closed", "c%d to %s: no login after %.0f s, the client has not closed the connection", c.id, g.Proto, float64(now-c.openAt)/1e9)
			}
		}
	}
}

var goneSince = map[*cconn]int64{}

func (c *cconn) openLateSince() int64 {
	t := goneSince[c]
	if t == 0 {
		t = simrt.PeekNs()
		goneSince[c] = t
	}
	return t
}

func spike(g *cgw) int64 { return 4*g.Link.LatMaxUs*1000 + 4*g.Link.CoalUs*1000 }

// heal waits until every pool is complete again.
func (w *cworld) heal() {
	t0 := simrt.PeekNs()
	mk := 0
	for _, g := range w.gws {
		g := g
		mk++
		simrt.GoSys(func() {
			sut(func() { _ = sms.CreateSessionFactory(g.Proto) })
			mk--
			w.doneQ.WakeAll()
		})
	}
	for mk > 0 {
		if simrt.PeekNs()-t0 > 120*sec+cslack() {
			violate("P17", "stuck-create", "creating the session factories does not end")
			finish("done", "")
		}
		w.doneQ.Wait("factories", simrt.PeekNs()+sec)
	}
	for _, g := range w.gws {
		lim := int64(60*sec) + 3*g.tickNs + int64(g.max)*(2*sec+spike(g))
		for _, e := range w.p.Events {
			if w.gws[e.GW%len(w.gws)] != g {
				continue
			}
			switch e.K {
			case "vanish", "partition", "deaf", "stall":
				if g.Proto == wire.SGIP {
					if lim < 1100*sec {
						lim = 1100 * sec
					}
				} else if lim < 200*sec {
					lim = 200 * sec
				}
			}
		}
		if g.NoHB && lim < 200*sec {
			lim = 200 * sec
		}
		bad := t0
		if g.lastBad > bad {
			bad = g.lastBad
		}
		for {
			n := 0
			for _, c := range g.conns {
				if c.up() {
					n++
				}
			}
			if n == g.max {
				break
			}
			if simrt.PeekNs()-bad > lim+cslack() {
				violate("P17", "not-healed", "%s: %d of %d connections %.0f s after the gateway became reachable and accepting", g.Proto, n, g.max, float64(simrt.PeekNs()-bad)/1e9)
				break
			}
			simrt.SleepNs(500 * ms)
		}
		res.Info["heal_ms"] += (simrt.PeekNs() - t0) / ms
	}
	trace("healed")
}

// finalSends: everything works again.
func (w *cworld) finalSends() {
	simrt.SleepNs(2*sec + cslack()/2)
	for _, g := range w.gws {
		ok := 0
		for _, c := range g.conns {
			if c.up() {
				ok++
			}
		}
		if ok != g.max {
			continue // already reported
		}
		s := &csend{kind: "send", text: "all is well", enc: "a", phones: []string{g.Prefix + "99999999"}, gws: []*cgw{g}}
		if w.route(s.phones[0]) != g {
			continue
		}
		w.send(s)
		if w.stopAt > 0 {
			return
		}
		if !s.got {
			violate("P17", "no-send-after-heal", "%s: all %d connections are up and a send fails", g.Proto, g.max)
			continue
		}
		probe("final_send")
	}
}

// stopped judges the end of the program.
func (w *cworld) stopped() {
	simrt.SleepNs(25*sec + cslack())
	for _, g := range w.gws {
		for _, c := range g.conns {
			if !c.cli.Closed() {
				violate("P17", "open-after-stop", "c%d to %s is still open %.0f s after the termination signal", c.id, g.Proto, float64(simrt.PeekNs()-w.stopAt)/1e9)
			}
		}
	}
	if w.statAt == 0 {
		violate("P17", "never-told", "%.0f s after the termination signal the program has not been told to end", float64(simrt.PeekNs()-w.stopAt)/1e9)
	}
}
