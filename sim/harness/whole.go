package main

import (
	"fmt"
	"strings"
	"syscall"

	"harness/wire"
	"plan"
	"simrt"
	"simrt/simnet"
	"simrt/simos"
	"simrt/simsignal"

	"github.com/hrygo/gosms/auth"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"
	"github.com/hrygo/log"
	"github.com/panjf2000/gnet/v2"
)

// The real client library talks to the real gateways; the harness only cuts
// connections and reads along.

// wmsg is one message on the wire.
type wmsg struct {
	key     string
	conn    *wconn
	p       *wire.PDU
	end     int64
	arrived int64 // completely at the gateway
	rsp     *wout
	rpts    []*wout
	rec     *session.Result
}

// wout is one frame of a gateway.
type wout struct {
	p         *wire.PDU
	end       int64
	at        int64
	delivered int64
	acked     int64
}

type wconn struct {
	id         int
	g          *wgw
	cli, srv   *simnet.Sock
	openAt     int64
	ups, downs wire.Splitter
	upN, dnN   int64
	subs       []*wmsg
	bySeq      map[string]*wmsg
	outs       []*wout
	pendUp     int
	pendDn     int
	ok         *wout // the response that accepts the login
	trouble    int64 // first injected trouble
	stallTo    int64
	lastAt     int64 // last frame in either direction
	usedAt     int64 // last accepted login or message, last pushed message
	mt, rpt    int
	mo         int
	admitted   bool
	refused    bool
	closeEnter int64
	closeExit  int64
	cliEnd     int64 // the client had closed it
	told       bool
}

type wgw struct {
	plan.CGW
	idx   int
	addr  string
	srv   *server.Server
	conns []*wconn
	ph    *plan.CPhase
	ids   map[string]*wmsg
}

type wsend struct {
	id         int
	g          []*wgw
	phones     []string
	start, end int64
	recs       []*session.Result
	final      bool
}

type wworld struct {
	p        *plan.Whole
	gws      []*wgw
	conns    []*wconn
	byRemote map[string]*wconn
	sends    []*wsend
	msgs     map[string]*wmsg
	running  int
	doneQ    simrt.WaitQ
	stopAt   int64
	statAt   int64
	trouble  bool
	strict   bool
	end      bool
	n        uint32
}

var ww *wworld

func runWhole(p *plan.Whole) {
	ww = &wworld{p: p, byRemote: map[string]*wconn{}, msgs: map[string]*wmsg{}}
	ww.trouble = len(p.Events) > 0
	ww.strict = p.Strict
	gnet.NumLoops = p.Loops
	dir := strings.TrimSuffix(bs.ConfigYml.BasePath()+bs.ConfigYml.GetString("AuthClient.YamlFilePath"), "/")
	for i := range p.GWs {
		g := &wgw{CGW: p.GWs[i], idx: i, addr: gwAddr(i), ids: map[string]*wmsg{}}
		if len(g.Phases) > 0 {
			ww.trouble = true
		}
		ww.gws = append(ww.gws, g)
		simos.Put(dir+"/"+g.Proto+"_"+g.ID+".yaml", []byte(credYaml(&g.Cred)))
	}
	byAddr := func(addr string) *wgw {
		for _, g := range ww.gws {
			if g.addr == addr {
				return g
			}
		}
		return nil
	}
	simnet.LinkFor = func(addr string) simnet.Link {
		if g := byAddr(addr); g != nil {
			return toLink(g.Link)
		}
		return simnet.Default
	}
	simnet.DialFault = func(addr string) (bool, error, int64) {
		g := byAddr(addr)
		if g == nil || g.ph == nil {
			return false, nil, 0
		}
		res.Faults["dial_"+g.ph.K]++
		if g.ph.K == "hang" {
			return true, nil, 0
		}
		return false, syscall.ECONNREFUSED, 0
	}
	simnet.Dialed = func(addr string, s *simnet.Sock) {
		if g := byAddr(addr); g != nil {
			g.dialed(s)
		}
	}
	o := &gnet.Observe
	o.OpenExit = func(remote string, refused bool) {
		if c := ww.byRemote[remote]; c != nil {
			c.admitted, c.refused = true, refused
		}
	}
	o.CloseEnter = func(remote string, err error) {
		if c := ww.byRemote[remote]; c != nil && c.closeEnter == 0 {
			c.closeEnter = simrt.PeekNs()
			trace("c%d gateway closes (%v)", c.id, err)
			c.lost("the gateway")
		}
	}
	o.CloseExit = func(remote string) {
		if c := ww.byRemote[remote]; c != nil {
			c.closeExit = simrt.PeekNs()
			if !c.refused {
				c.usage()
			}
		}
	}
	simrt.Start()
	sut(func() { auth.Cache = auth.New(bs.ConfigYml) })
	for _, g := range ww.gws {
		g := g
		sut(func() {
			g.srv = server.New(g.Proto)
			server.Start(g.srv)
		})
	}
	for k := 0; ; k++ {
		simrt.SleepNs(20 * ms)
		up := true
		for i := range ww.gws {
			if !simnet.Listening(10000 + 10*i) {
				up = false
			}
		}
		if up && k > 0 && gnet.Running() >= len(ww.gws) {
			break
		}
		if k > 3000 {
			violate("*", "not-listening", "a started gateway accepts no connections after a minute")
			finish("done", "")
		}
	}
	sut(func() { sms.StartCacheExpireTicker(nil) })
	simrt.GoSUT(func() {
		simrt.Recv(sms.StatChan())
		ww.statAt = simrt.PeekNs()
	})
	for _, g := range ww.gws {
		simrt.GoSys(g.phases)
	}
	simrt.GoSys(ww.events)
	simrt.GoSys(ww.watch)
	if p.StopMs > 0 {
		simrt.GoSys(func() {
			simrt.SleepNs(p.StopMs * ms)
			ww.stop()
		})
	}
	ww.running = len(p.Senders)
	for i := range p.Senders {
		sd := &p.Senders[i]
		i := i
		simrt.GoSys(func() {
			simrt.SleepNs(sd.StartUs * 1000)
			for j, o := range sd.Ops {
				ww.op(i, j, o)
			}
			ww.running--
			ww.doneQ.WakeAll()
		})
	}
	for ww.running > 0 {
		ww.doneQ.Wait("senders", simrt.PeekNs()+60*sec)
		if simrt.PeekNs() > 10*3600*sec {
			finish("harness", "senders do not finish")
		}
	}
	if d := p.EndMs*ms - simrt.PeekNs(); d > 0 {
		simrt.SleepNs(d)
	}
	if ww.stopAt == 0 {
		ww.heal()
	}
	if ww.stopAt == 0 {
		ww.finalSends()
	}
	ww.settle()
	ww.evaluate()
	if ww.stopAt == 0 && p.IdleMs > 0 {
		ww.idle()
	}
	ww.end = true
	ww.stop()
	ww.stopped()
}

func (w *wworld) stop() {
	if w.stopAt > 0 {
		return
	}
	for i := 0; simsignal.Registered(syscall.SIGTERM) < 2 && i < 3000; i++ {
		simrt.SleepNs(ms)
		if w.stopAt > 0 {
			return
		}
	}
	w.stopAt = simrt.PeekNs()
	trace("termination signal")
	simsignal.Deliver(syscall.SIGTERM)
}

// ---------------------------------------------------------------- reading along

func (g *wgw) dialed(s *simnet.Sock) {
	c := &wconn{id: len(ww.conns) + 1, g: g, cli: s, srv: s.Peer(), openAt: simrt.PeekNs(), bySeq: map[string]*wmsg{}}
	ww.conns = append(ww.conns, c)
	g.conns = append(g.conns, c)
	ww.byRemote[s.Local.String()] = c
	v3 := v3of(&g.Cred)
	n := 0
	for _, o := range g.conns {
		if !o.cli.Closed() {
			n++
		}
	}
	if n > g.Max {
		violate("P26", "too-many", "%s: the client opens connection %d of %d", g.Proto, n, g.Max)
	}
	c.lastAt = c.openAt
	c.cli.Tap = func(b []byte) {
		at := c.upN
		c.upN += int64(len(b))
		_ = at
		for _, raw := range c.ups.Feed(b) {
			c.sent(wire.Parse(g.Proto, v3, raw), c.upN-int64(c.ups.Rest()))
		}
	}
	c.srv.Tap = func(b []byte) {
		c.dnN += int64(len(b))
		for _, raw := range c.downs.Feed(b) {
			c.answered(wire.Parse(g.Proto, v3, raw), c.dnN-int64(c.downs.Rest()))
		}
	}
	c.srv.OnDeliver = func(total int64) {
		for c.pendUp < len(c.subs) && c.subs[c.pendUp].end <= total {
			c.subs[c.pendUp].arrived = simrt.PeekNs()
			c.pendUp++
		}
	}
	c.cli.OnDeliver = func(total int64) {
		for c.pendDn < len(c.outs) && c.outs[c.pendDn].end <= total {
			x := c.outs[c.pendDn]
			x.delivered = simrt.PeekNs()
			if x.p.Kind == wire.LoginRsp && x.p.Status == 0 && c.ok == nil {
				c.ok = x
				probe("whole_login")
			}
			c.pendDn++
		}
	}
	trace("g%d c%d dialled", g.idx, c.id)
	res.Info["conns"]++
}

// sent: the client wrote a frame.
func (c *wconn) sent(p *wire.PDU, end int64) {
	now := simrt.PeekNs()
	if p.Kind != wire.TermRsp {
		c.lastAt = now
	}
	trace("c%d client writes %s %s", c.id, p.Kind, p.Seq)
	switch p.Kind {
	case wire.Submit:
		k := p.Seq
		if c.g.Proto == wire.SGIP {
			k = p.Seq[8:]
		}
		m := &wmsg{key: k, conn: c, p: p, end: end}
		c.subs = append(c.subs, m)
		c.bySeq[p.Seq] = m
		ww.msgs[k] = m
		if c.g.Proto == wire.SGIP {
			c.g.ids[p.Seq] = m
		}
	case wire.DeliverRp, wire.ReportRsp:
		for i := len(c.outs) - 1; i >= 0; i-- {
			if x := c.outs[i]; x.p.Seq == p.Seq && (x.p.Kind == wire.Deliver || x.p.Kind == wire.Report) && x.acked == 0 {
				x.acked = now
				break
			}
		}
	case wire.ActiveRsp:
		probe("whole_hb_answered")
		for _, x := range c.outs {
			if x.p.Kind == wire.Active && x.p.Seq == p.Seq && x.acked == 0 {
				x.acked = now
			}
		}
	case wire.Active:
		probe("whole_hb_client")
	}
}

// answered: the gateway wrote a frame.
func (c *wconn) answered(p *wire.PDU, end int64) {
	x := &wout{p: p, end: end, at: simrt.PeekNs()}
	if p.Kind != wire.Term {
		c.lastAt = x.at
	}
	if p.Kind == wire.Deliver || (p.Kind == wire.LoginRsp || p.Kind == wire.SubmitRsp) && p.Status == 0 {
		c.usedAt = x.at
	}
	c.outs = append(c.outs, x)
	trace("c%d gateway writes %s %s st=%d", c.id, p.Kind, p.Seq, p.Status)
	switch p.Kind {
	case wire.SubmitRsp:
		m := c.bySeq[p.Seq]
		if m == nil {
			violate("P26", "answer-to-nothing", "c%d %s: the gateway answers a message %s never sent on the connection", c.id, c.g.Proto, p.Seq)
			return
		}
		if m.rsp != nil {
			violate("P26", "answered-twice", "c%d %s: message %s is answered twice", c.id, c.g.Proto, p.Seq)
			return
		}
		m.rsp = x
		probe("whole_answered")
		if p.Status == 0 {
			c.mt++
			if c.g.Proto != wire.SGIP {
				if o := c.g.ids[p.MsgID]; o != nil {
					violate("P26", "id-twice", "%s: two messages are given the number %s", c.g.Proto, p.MsgID)
				}
				c.g.ids[p.MsgID] = m
			}
		}
	case wire.Report:
		c.rpt++
		m := c.g.ids[p.MsgID]
		if m == nil || m.rsp == nil {
			violate("P26", "report-for-nothing", "c%d %s: the gateway reports about %s, which it gave to no message", c.id, c.g.Proto, p.MsgID)
			return
		}
		m.rpts = append(m.rpts, x)
		probe("whole_report")
	case wire.Deliver:
		c.mo++
		probe("whole_push")
	}
}

func (c *wconn) open() bool {
	return !c.cli.Closed() && !c.cli.PeerGone() && !c.srv.Closed() && !c.srv.PeerGone()
}
func (c *wconn) up() bool { return c.ok != nil && c.open() }

func (g *wgw) up() (n int) {
	for _, c := range g.conns {
		if c.up() {
			n++
		}
	}
	return
}

// lost: a connection ends; CMPP and SMGP sessions have no reason to end by themselves.
func (c *wconn) lost(who string) {
	now := simrt.PeekNs()
	if c.told || c.ok == nil || c.trouble > 0 || ww.stopAt > 0 {
		return
	}
	c.told = true
	if c.g.Proto == wire.SGIP && now-c.usedAt >= ww.p.ForceMs*ms-sec-slack() {
		probe("whole_idle_end")
		return
	}
	violate("P26", "session-lost", "c%d %s: %s ends a logged-in session %.1f s after its last frame, nobody interfered with it", c.id, c.g.Proto, who, float64(now-c.lastAt)/1e9)
}

func (w *wworld) watch() {
	for !w.end {
		simrt.SleepNs(200 * ms)
		for _, c := range w.conns {
			if c.cliEnd == 0 && c.cli.Closed() {
				c.cliEnd = simrt.PeekNs()
				if !c.srv.Closed() && c.closeEnter == 0 {
					c.lost("the client")
				}
			}
		}
	}
}

// ---------------------------------------------------------------- trouble

func (g *wgw) phases() {
	for i := range g.Phases {
		ph := &g.Phases[i]
		if d := ph.AtMs*ms - simrt.PeekNs(); d > 0 {
			simrt.SleepNs(d)
		}
		trace("g%d %s for %d ms", g.idx, ph.K, ph.ForMs)
		g.ph = ph
		simrt.SleepNs(ph.ForMs * ms)
		g.ph = nil
	}
}

func (w *wworld) events() {
	for _, e := range w.p.Events {
		if d := e.AtMs*ms - simrt.PeekNs(); d > 0 {
			simrt.SleepNs(d)
		}
		g := w.gws[e.GW%len(w.gws)]
		var l []*wconn
		for _, c := range g.conns {
			if c.open() {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			continue
		}
		if e.N >= 0 {
			l = l[e.N%len(l) : e.N%len(l)+1]
		}
		for _, c := range l {
			if c.trouble == 0 {
				c.trouble = simrt.PeekNs()
			}
			probe("whole_trouble")
			trace("c%d %s", c.id, e.K)
			switch e.K {
			case "reset":
				c.cli.Kill()
				c.srv.Kill()
			case "resetcli":
				c.cli.Kill()
			case "resetsrv": // the client's host finds out by probing
				c.srv.Kill()
				c := c
				simrt.GoSys(func() {
					simrt.SleepNs(20 * sec)
					if !c.cli.Closed() && !c.cli.PeerGone() {
						c.cli.Kill()
					}
				})
			case "hole":
				c.cli.Partition(e.A * ms)
			case "upstall":
				c.cli.Stall(e.A * ms)
			case "downstall":
				c.srv.Stall(e.A * ms)
			}
		}
	}
}

// ---------------------------------------------------------------- the program

func (w *wworld) op(i, j int, o plan.Op) {
	switch o.K {
	case "sleep":
		simrt.SleepNs(o.A * 1000)
	case "send", "sendn":
		f := strings.Split(o.S, ":")
		n := 0
		fmt.Sscan(f[1], &n)
		s := &wsend{}
		for k := int64(0); k < max(o.B, 1); k++ {
			g := w.gws[(int(o.A)+int(k))%len(w.gws)]
			s.phones = append(s.phones, fmt.Sprintf("%s%04d%04d", g.Prefix, i, (j*100+int(k))%10000))
			s.g = append(s.g, g)
			if o.K == "send" {
				break
			}
		}
		w.send(s, buildText(f[0], n))
	}
}

func (w *wworld) send(s *wsend, text string) {
	s.id = len(w.sends)
	w.sends = append(w.sends, s)
	s.start = simrt.PeekNs()
	stopped := w.stopAt > 0
	trace("send %d to %v (%d bytes)", s.id, first3(s.phones), len(text))
	var rs []any
	sut(func() {
		var q int64
		if len(s.phones) == 1 {
			q = sms.Send(text, s.phones[0])
		} else {
			q = sms.SendN(text, s.phones)
		}
		s.end = simrt.PeekNs()
		rs = sms.Query(q)
	})
	for _, x := range rs {
		if r, ok := x.(*session.Result); ok {
			s.recs = append(s.recs, r)
		}
	}
	trace("send %d returns %d records", s.id, len(s.recs))
	res.Info["sends"]++
	res.Info["records"] += int64(len(s.recs))
	if (w.strict || s.final) && !stopped && w.stopAt == 0 {
		for i, ph := range s.phones {
			n := 0
			for _, r := range s.recs {
				if r.Phone == ph {
					n++
				}
			}
			if n == 0 {
				violate("P26", "no-record", "send %d: no record for %s (%s), the gateway is up and the rate is low", s.id, ph, s.g[i].Proto)
			}
		}
	}
}

// bound is the time after which no session of a lost connection is left at the gateway.
func (w *wworld) bound() int64 {
	b := (w.p.ForceMs+2*w.p.TickMs)*ms + 10*sec
	if d := 70*sec + 6*w.p.TickMs*ms; b < d {
		b = d
	}
	return b
}

// heal waits until every pool is complete.
func (w *wworld) heal() {
	t0 := simrt.PeekNs()
	mk := len(w.gws)
	for _, g := range w.gws {
		g := g
		simrt.GoSys(func() {
			sut(func() { _ = sms.CreateSessionFactory(g.Proto) })
			mk--
			w.doneQ.WakeAll()
		})
	}
	for mk > 0 {
		w.doneQ.Wait("factories", simrt.PeekNs()+sec)
		if simrt.PeekNs()-t0 > 600*sec+cslack() {
			violate("P26", "stuck-create", "creating the session factories does not end")
			finish("done", "")
		}
	}
	for _, g := range w.gws {
		lim := 60*sec + 3*g.TickMs*ms + int64(g.Max)*(12*sec+4*g.Link.LatMaxUs*1000+4*g.Link.CoalUs*1000)
		if w.trouble {
			lim += w.bound() + 100*sec
		}
		for g.up() < g.Max && w.stopAt == 0 {
			if simrt.PeekNs()-t0 > lim+cslack() {
				violate("P26", "not-healed", "%s: %d of %d sessions %.0f s after the last trouble; the gateway admits %d", g.Proto, g.up(), g.Max, float64(simrt.PeekNs()-t0)/1e9, g.MaxConns)
				break
			}
			simrt.SleepNs(500 * ms)
		}
		if g.up() == g.Max {
			probe("whole_pool_full")
			if w.trouble {
				probe("whole_healed")
			}
			if g.Max == g.MaxConns {
				probe("whole_pool_at_limit")
			}
		}
	}
	trace("healed")
}

func (w *wworld) finalSends() {
	simrt.SleepNs(2*sec + cslack()/2)
	for _, g := range w.gws {
		if g.up() < g.Max || w.stopAt > 0 {
			continue
		}
		for k := 0; k < 2; k++ {
			w.send(&wsend{phones: []string{g.Prefix + fmt.Sprintf("9999999%d", k)}, g: []*wgw{g}, final: true}, "all is well")
		}
	}
}

// settle waits until everything asked is answered and reported.
func (w *wworld) settle() {
	t0 := simrt.PeekNs()
	for {
		open := false
		for _, c := range w.conns {
			for _, m := range c.subs {
				if m.rsp == nil && c.open() {
					open = true
				}
			}
		}
		if !open || simrt.PeekNs()-t0 > 60*sec+2*slack() {
			break
		}
		simrt.SleepNs(200 * ms)
	}
	d := int64(0)
	for _, g := range w.gws {
		d = max(d, 40*g.Link.LatMaxUs*1000+40*g.Link.CoalUs*1000)
	}
	simrt.SleepNs((w.p.MaxResp+w.p.Report)*ms + 5*sec + d + slack())
}

// ---------------------------------------------------------------- agreement

// took: the client had the frame and time to read it.
func (c *wconn) took(x *wout) bool {
	if x == nil || x.delivered == 0 {
		return false
	}
	t := x.delivered + 2*sec + slack()
	return simrt.PeekNs() >= t && (c.cliEnd == 0 || c.cliEnd > t) && (c.trouble == 0 || c.trouble > t) && (ww.stopAt == 0 || ww.stopAt > t)
}

func (w *wworld) evaluate() {
	slk := slack()
	exp := w.p.ExpireMs * ms
	for _, s := range w.sends {
		for _, r := range s.recs {
			m := w.msgs[seqKey(r)]
			if m == nil {
				violate("P26", "record-without-message", "send %d: the record of %s shows message %s, which was never sent", s.id, r.Phone, seqKey(r))
				continue
			}
			if m.rec != nil && m.rec != r {
				violate("P26", "two-records", "message %s has two records", m.key)
				continue
			}
			m.rec = r
			if !in1(m.p.Dests, r.Phone) {
				violate("P26", "wrong-phone", "message %s goes to %v, its record says %s", m.key, m.p.Dests, r.Phone)
			}
			c := m.conn
			// what the client still has to read when the record expires is lost
			due := tns(r.SendTime) + exp - 3*sec - slk
			if m.rsp == nil || m.rsp.delivered == 0 {
				if !r.ResponseTime.IsZero() || r.Result != 0 || r.MsgId != "" {
					violate("P26", "answer-from-nowhere", "%s message %s: the record shows result %d and number %q, the gateway's answer never arrived", c.g.Proto, m.key, r.Result, r.MsgId)
				}
			} else if c.took(m.rsp) && m.rsp.delivered < due {
				probe("whole_agreed")
				if r.Result != m.rsp.p.Status || r.ResponseTime.IsZero() {
					violate("P26", "result-differs", "%s message %s: the gateway answers %d, the record shows %d (answered: %v)", c.g.Proto, m.key, m.rsp.p.Status, r.Result, !r.ResponseTime.IsZero())
				}
				if id := m.id(); m.rsp.p.Status == 0 && !strings.EqualFold(r.MsgId, id) {
					violate("P26", "number-differs", "%s message %s: the gateway gives it number %s, the record shows %q", c.g.Proto, m.key, id, r.MsgId)
				}
			}
			var first *wout
			for _, x := range m.rpts {
				if x.delivered > 0 && (first == nil || x.delivered < first.delivered) {
					first = x
				}
			}
			if first == nil {
				if r.Report != "" {
					violate("P26", "report-from-nowhere", "%s message %s: the record shows report %q, none arrived", c.g.Proto, m.key, r.Report)
				}
			} else if c.took(first) && first.delivered < due && (m.rsp == nil || m.rsp.delivered <= first.delivered) {
				probe("whole_report_agreed")
				if r.Report == "" || !reportIs(c.g.Proto, r.Report, first.p) {
					violate("P26", "report-differs", "%s message %s: the gateway reports %q, the record shows %q", c.g.Proto, m.key, first.p.Stat, r.Report)
				}
			}
			if (w.strict || s.final && w.p.Success >= 1) && w.stopAt == 0 && c.trouble == 0 {
				switch {
				case m.rsp == nil:
					violate("P26", "never-answered", "%s message %s of send %d has no answer", c.g.Proto, m.key, s.id)
				case m.rsp.p.Status != 0 && c.g.Window < 100: // the rate limit
				case m.rsp.p.Status != 0:
					violate("P26", "refused", "%s message %s of send %d is refused with %d by a gateway that accepts everything", c.g.Proto, m.key, s.id, m.rsp.p.Status)
				case first == nil && c.g.Proto == wire.SGIP: // the gateway does not report yet
					probe("whole_done")
				case first == nil:
					violate("P26", "never-reported", "%s message %s of send %d is accepted and never reported", c.g.Proto, m.key, s.id)
				case len(m.rpts) > 1:
					violate("P26", "reported-twice", "%s message %s of send %d has %d reports", c.g.Proto, m.key, s.id, len(m.rpts))
				default:
					probe("whole_done")
				}
			}
		}
	}
	for _, c := range w.conns {
		for _, x := range c.outs {
			k := x.p.Kind
			if k != wire.Deliver && k != wire.Report && k != wire.Active || x.delivered == 0 || !c.took(x) {
				continue
			}
			dl := x.delivered + 5*sec + slk
			if c.cliEnd > 0 && c.cliEnd < dl || c.closeEnter > 0 && c.closeEnter < dl || c.trouble > 0 {
				continue
			}
			if x.acked == 0 || x.acked > dl {
				violate("P26", "not-acknowledged", "c%d %s: the client does not acknowledge the gateway's %s %s", c.id, c.g.Proto, k, x.p.Seq)
			}
		}
	}
}

func reportIs(proto, shown string, p *wire.PDU) bool {
	return strings.HasPrefix(shown, p.Stat)
}

func in1(l []string, s string) bool {
	for _, x := range l {
		if x == s || x == "86"+s {
			return true
		}
	}
	return false
}

// id is the message's number as a program sees it.
func (m *wmsg) id() string {
	if m.conn.g.Proto == wire.SGIP {
		q := wire.SeqOf(wire.SGIP, m.p.Raw)
		return fmt.Sprintf("%010d%010d%08x", q[0], q[1], q[2])
	}
	return m.rsp.p.MsgID
}

// usage compares the usage record with the connection's traffic.
func (c *wconn) usage() {
	var mine []*log.Rec
	for _, r := range journalRecs() {
		if r.Fields["remote"] == c.cli.Local.String() {
			mine = append(mine, r)
		}
	}
	if len(mine) != 1 {
		violate("P26", "usage-count", "c%d %s: %d usage records for one session", c.id, c.g.Proto, len(mine))
		return
	}
	r := mine[0]
	probe("whole_usage")
	if !r.Durable {
		violate("P26", "usage-not-flushed", "c%d %s: the usage record is not flushed when the session ends", c.id, c.g.Proto)
	}
	cmp := func(what string, got any, want int) {
		g := num(got)
		if g < int64(want) || c.trouble == 0 && ww.stopAt == 0 && g != int64(want) {
			violate("P26", "usage-differs", "c%d %s: the usage record says %d %s, the client was sent %d", c.id, c.g.Proto, g, what, want)
		}
	}
	cmp("accepted messages", r.Fields["s_mt_num"], c.mt)
	cmp("reports", r.Fields["s_rpt_num"], c.rpt)
	cmp("pushed messages", r.Fields["s_dlv_num"], c.mo)
}

// idle: nothing is sent for a while and the sessions stay.
func (w *wworld) idle() {
	had := map[*wconn]bool{}
	for _, c := range w.conns {
		if c.up() {
			had[c] = true
		}
	}
	simrt.SleepNs(w.p.IdleMs * ms)
	if w.stopAt > 0 {
		return
	}
	for _, g := range w.gws {
		if g.Proto == wire.SGIP {
			continue
		}
		n := 0
		for _, c := range g.conns {
			if c.up() && had[c] {
				n++
			}
		}
		probe("whole_idle")
		if n == g.Max {
			probe("whole_idle_kept")
		}
	}
	w.evaluate()
}

// stopped: after the program's end nothing is left of it at the gateways.
func (w *wworld) stopped() {
	for _, c := range w.conns { // the pools of the gateways agree with the client's to the end
		_ = c
	}
	simrt.SleepNs(25*sec + cslack())
	for _, c := range w.conns {
		if !c.cli.Closed() {
			violate("P26", "open-after-stop", "c%d %s is still open %.0f s after the termination signal", c.id, c.g.Proto, float64(simrt.PeekNs()-w.stopAt)/1e9)
		}
	}
	if w.statAt == 0 {
		violate("P26", "never-told", "%.0f s after the termination signal the program has not been told to end", float64(simrt.PeekNs()-w.stopAt)/1e9)
	}
	left := func() *wconn {
		for _, c := range w.conns {
			if c.admitted && !c.refused && c.closeExit == 0 {
				return c
			}
		}
		return nil
	}
	if c := left(); c != nil {
		if !w.trouble {
			violate("P26", "session-left", "c%d %s: the gateway still holds the session %.0f s after the program's end", c.id, c.g.Proto, float64(simrt.PeekNs()-w.stopAt)/1e9)
		}
		d := w.bound()
		for _, e := range w.p.Events {
			if e.AtMs+e.A > w.p.EndMs {
				d += e.A * ms
			}
		}
		simrt.SleepNs(d + cslack())
		if c := left(); c != nil {
			violate("P26", "session-left", "c%d %s: the gateway still holds the session %.0f s after the program's end", c.id, c.g.Proto, float64(simrt.PeekNs()-w.stopAt)/1e9)
		}
	} else {
		probe("whole_ended")
	}
}
