package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"

	"harness/wire"
	"plan"
	"simrt"
	"simrt/simnet"
	"simrt/simos"

	"github.com/hrygo/gosms/auth"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"
	"github.com/hrygo/log"
	"github.com/panjf2000/gnet/v2"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// adm follows one connection through the server's open and close callbacks.
type adm struct {
	remote                                     string
	gw                                         int
	openEnter, openExit, closeEnter, closeExit int64
	refused                                    bool
	othersMax                                  int // most slots others could hold during OnOpen
	sid                                        uint64
	client                                     string
}

type frame struct {
	at int64
	p  *wire.PDU
}

type sent struct {
	kind      string
	seq       string
	end       int64 // stream offset behind it
	at        int64 // handed to the network
	delivered int64 // completely at the server, 0 = not
	ok        bool  // well-formed
	src, dest string
	dests     []string
	expect    string // for logins: the kind of login
	base      string // for logins: what is wrong whatever the credentials are
	secret    string // for logins: the secret used
	conn      *sconn
	resp      []*frame // written by the server
	got       []*frame // received by the peer
	reports   []*frame
	content   []byte
}

type sconn struct {
	id         int
	peer       *speer
	gw         int
	proto      string
	v3         bool
	cred       *plan.Cred
	ci         int
	loose      bool // the version it logged in under is not known
	sock       *simnet.Sock
	remote     string
	openAt     int64
	stream     int64
	sents      []*sent
	bySeq      map[string][]*sent // kind/seq
	pendDel    int
	tap        []*frame
	recv       []*frame
	tsplit     wire.Splitter
	rsplit     wire.Splitter
	outbox     []byte
	outWait    simrt.WaitQ
	event      simrt.WaitQ
	paused     bool
	pauseQ     simrt.WaitQ
	okTap      int64 // login OK written
	okGot      int64
	loginGot   *wire.PDU
	eofAt      int64
	clientEnd  int64 // we ended it
	endHow     string
	hostile    bool // sent something malformed or out of state
	termSent   int64
	termRsp    int64 // we answered or sent a termination response
	hbSeen     int
	slow       int64 // ns during which we did not read, or the link was stalled
	broken     bool  // link faults that may lose the connection
	relogin    bool
	dialErr    error
	am         *adm
	final      bool // a probe of the harness itself
	failTap    int64
	accepted   int
	reportsOut int
	mo         int
	own        map[string]string // numbers of the server's requests
	pushAt     []int64
	byMsg      map[string]*sent
	probes     []int64
	srvTerm    []int64
	load       int64 // steady load, at most so many unanswered
}

type speer struct {
	plan.Peer
	cred  *plan.Cred // to begin with
	gw    int
	conns []*sconn
	cur   *sconn
	done  bool
}

type gwState struct {
	plan.GW
	idx     int
	srv     *server.Server
	base    string
	adms    []*adm
	inCB    int
	lastEv  int64
	gone    map[uint64]bool
	present map[uint64]string
}

type sworld struct {
	p        *plan.Server
	gws      []*gwState
	adm      map[string]*adm
	conns    []*sconn
	byRemote map[string]*sconn
	peers    []*speer
	seq      uint32
	baseline map[string]int
	msgids   map[string]string
	doneQ    simrt.WaitQ
	running  int
	stopMon  bool
	phase    string

	creds      []*credState // nil: they never change
	confs      []confEpoch
	credDir    string
	credStart  int64
	credFaults [][3]int64 // from, to, which entry (-1: all)
}

var w *sworld

func gwAddr(i int) string { return fmt.Sprintf("127.0.0.1:%d", 10000+i*10) }

func toLink(l plan.Link) simnet.Link {
	k := simnet.Link{LatMin: l.LatMinUs * 1000, LatMax: l.LatMaxUs * 1000, Seg: l.Seg, Coalesce: l.CoalUs * 1000, ShortRead: l.ShortRead, RcvWnd: l.RcvWnd, SndBuf: l.SndBuf}
	if k.RcvWnd <= 0 {
		k.RcvWnd = 64 << 10
	}
	if k.SndBuf <= 0 {
		k.SndBuf = 64 << 10
	}
	if k.LatMax <= 0 {
		k.LatMin, k.LatMax = 20_000, 200_000
	}
	return k
}

func credYaml(c *plan.Cred) string {
	return fmt.Sprintf("client-id: \"%s\"\nlogin-name: \"%s\"\nshared-secret: \"%s\"\nversion: %d\nneed-report: 1\nsms-display-no: \"%s\"\nservice-id: \"svc\"\ndefault-msg-level: 1\nmax-conns: %d\nmt-window-size: %d\nthroughput: %d\nmt-valid-duration: 2h\n",
		c.ID, c.Name, c.Secret, c.Ver, c.Display, c.MaxConns, c.Window, c.Tput)
}

func v3of(c *plan.Cred) bool { return c.Proto == wire.CMPP && c.Ver&0xf0 == 0x30 }

// sut runs f as part of the system under test (goroutines it starts count).
func sut(f func()) {
	simrt.SetSys(false)
	f()
	simrt.SetSys(true)
}

func runServer(p *plan.Server) {
	w = &sworld{p: p, adm: map[string]*adm{}, byRemote: map[string]*sconn{}, msgids: map[string]string{}, baseline: map[string]int{}}
	gnet.NumLoops = p.Loops
	observe()
	simnet.Dialed = func(addr string, c *simnet.Sock) {
		var port int
		fmt.Sscanf(addr[strings.LastIndexByte(addr, ':')+1:], "%d", &port)
		dials[c.Local.String()] = (port - 10000) / 10
	}
	dir := bs.ConfigYml.BasePath() + bs.ConfigYml.GetString("AuthClient.YamlFilePath")
	w.credDir = strings.TrimSuffix(dir, "/")
	w.startCreds()
	w.startConf()
	for i := range p.Creds {
		c := &p.Creds[i]
		if c.Late {
			continue
		}
		simos.Put(w.credDir+"/"+c.Proto+"_"+c.ID+".yaml", []byte(credYaml(c)))
	}
	simrt.Start()
	sut(func() { auth.Cache = auth.New(bs.ConfigYml) })
	for i, g := range p.GWs {
		st := &gwState{GW: g, idx: i, gone: map[uint64]bool{}, present: map[uint64]string{}}
		w.gws = append(w.gws, st)
		sut(func() {
			st.srv = server.New(g.Proto)
			server.Start(st.srv)
		})
	}
	for k := 0; ; k++ { // the listeners come up in goroutines of their own
		simrt.SleepNs(20 * ms)
		up := true
		for i := range w.gws {
			if !simnet.Listening(10000 + 10*i) {
				up = false
			}
		}
		if up && k > 0 && gnet.Running() >= len(w.gws) {
			break
		}
		if k > 3000 {
			violate("*", "not-listening", "a started gateway accepts no connections after a minute")
			finish("done", "")
		}
	}
	simrt.SleepNs(20 * ms)
	for _, g := range simrt.Live() {
		w.baseline[g.Site]++
	}
	// connections choose their link by the peer that dials
	for i := range p.Peers {
		sp := &speer{Peer: p.Peers[i], cred: &p.Creds[p.Peers[i].Cred]}
		sp.gw = gwOf(sp.cred.Proto)
		w.peers = append(w.peers, sp)
	}
	w.running = len(w.peers)
	for _, sp := range w.peers {
		sp := sp
		simrt.GoSys(func() {
			simrt.SleepNs(sp.StartUs * 1000)
			sp.run()
			sp.done = true
			w.running--
			w.doneQ.WakeAll()
		})
	}
	simrt.GoSys(monitor)
	w.phase = "run"
	w.credStart = simrt.PeekNs()
	if w.p.Conf != nil {
		w.running++
		simrt.GoSys(func() {
			w.confOps()
			w.running--
			w.doneQ.WakeAll()
		})
	}
	if w.creds != nil {
		w.running++
		simrt.GoSys(func() {
			w.credOps()
			w.running--
			w.doneQ.WakeAll()
		})
	}
	for w.running > 0 {
		w.doneQ.Wait("peers", simrt.PeekNs()+3600*sec)
		if simrt.PeekNs() > 20*3600*sec {
			finish("harness", "peers do not finish")
		}
	}
	w.phase = "settle"
	settle()
	snapshotAll()
	finalProbe("mid")
	w.phase = "quiet"
	quiet := p.QuietS * sec
	for _, c := range w.conns {
		if c.alive() {
			c.endHow = "final"
			c.clientEnd = simrt.PeekNs()
			c.sock.Close()
		}
	}
	need := int64(5 * sec)
	for _, c := range w.conns {
		if c.endHow == "vanish" && c.am != nil && c.am.closeExit == 0 {
			need = (p.ForceMs+3*p.TickMs)*ms + 15*sec
		}
	}
	if quiet < need {
		quiet = need
	}
	simrt.SleepNs(quiet)
	snapshotAll()
	w.stopMon = true
	credSettled()
	checkLeaks()
	relogins()
	evalServer()
}

func gwOf(proto string) int {
	for i, g := range w.p.GWs {
		if g.Proto == proto {
			return i
		}
	}
	return 0
}

// ---------------------------------------------------------------- following the server

func observe() {
	o := &gnet.Observe
	find := func(remote string) (*adm, *gwState) {
		a := w.adm[remote]
		if a == nil {
			return nil, nil
		}
		return a, w.gws[a.gw]
	}
	o.OpenEnter = func(remote string) {
		a := w.adm[remote]
		if a == nil {
			a = &adm{remote: remote, gw: -1}
			w.adm[remote] = a
		}
		if a.gw < 0 {
			a.gw = w.dialing(remote)
		}
		st := w.gws[a.gw]
		st.inCB++
		st.lastEv = simrt.PeekNs()
		a.openEnter = simrt.PeekNs()
		st.adms = append(st.adms, a)
		n := 0
		for _, b := range st.adms {
			if b != a && b.closeExit == 0 && !(b.refused && b.openExit > 0) {
				n++
			}
		}
		// everybody now inside OnOpen sees one more possible holder
		for _, b := range st.adms {
			if b != a && b.openExit == 0 {
				k := 0
				for _, x := range st.adms {
					if x != b && x.closeExit == 0 && !(x.refused && x.openExit > 0) {
						k++
					}
				}
				if k > b.othersMax {
					b.othersMax = k
				}
			}
		}
		a.othersMax = n
	}
	o.OpenExit = func(remote string, refused bool) {
		a, st := find(remote)
		st.inCB--
		st.lastEv = simrt.PeekNs()
		a.openExit = simrt.PeekNs()
		a.refused = refused
		if refused {
			probe("refused_at_cap")
			if a.othersMax < st.Cap {
				violate("P02", "refused-below-cap", "%s refused although at most %d of %d sessions existed", remote, a.othersMax, st.Cap)
			}
			return
		}
		n := st.admitted()
		if n > st.Cap {
			violate("P02", "over-cap", "%d sessions admitted, cap %d", n, st.Cap)
		}
		if n == st.Cap {
			probe("at_cap")
		}
	}
	o.CloseEnter = func(remote string, err error) {
		a, st := find(remote)
		st.inCB++
		st.lastEv = simrt.PeekNs()
		a.closeEnter = simrt.PeekNs()
		if a.openExit == 0 {
			probe("close_inside_open")
		}
		if c := w.byRemote[remote]; c != nil {
			trace("c%d server closes (%v)", c.id, err)
		}
	}
	o.CloseExit = func(remote string) {
		a, st := find(remote)
		st.inCB--
		st.lastEv = simrt.PeekNs()
		a.closeExit = simrt.PeekNs()
		if !a.refused {
			journalCheck(a)
		}
	}
}

// admitted counts the open admitted connections of a gateway.
func (st *gwState) admitted() (n int) {
	for _, a := range st.adms {
		if a.openExit > 0 && !a.refused && a.closeEnter == 0 {
			n++
		}
	}
	return
}

var dials = map[string]int{}

func (w *sworld) dialing(remote string) int { return dials[remote] }

type sessView interface {
	Id() uint64
	Conn() gnet.Conn
	ClientId() string
}

func snapshot(st *gwState) {
	var n, size int
	ids := map[uint64]string{}
	simrt.NoPreempt(func() {
		n = st.srv.ActiveSessions()
		st.srv.SessionPool().Range(func(k, v any) bool {
			size++
			if s, ok := v.(sessView); ok {
				r := ""
				if c := s.Conn(); c != nil && c.RemoteAddr() != nil {
					r = c.RemoteAddr().String()
				}
				ids[s.Id()] = r
				if a := w.adm[r]; a != nil {
					a.sid = s.Id()
				}
			}
			return true
		})
	})
	res.Info["snapshots"]++
	if n < 0 || n > st.Cap {
		violate("P02", "count-range", "%s reports %d active sessions, cap %d", st.Proto, n, st.Cap)
	}
	// journal before disappearance
	for id, r := range st.present {
		if _, ok := ids[id]; !ok && !st.gone[id] {
			st.gone[id] = true
			if !journaled(id) {
				violate("P13", "gone-before-record", "session %d (%s) is gone from the server and no durable usage record of it exists", id, r)
			}
		}
	}
	st.present = ids
	if st.inCB == 0 && simrt.PeekNs()-st.lastEv > 50*ms+stallNs() {
		a := st.admitted()
		if n != a {
			violate("P02", "count-wrong", "%s reports %d active sessions, %d connections are admitted and open (phase %s)", st.Proto, n, a, w.phase)
		}
		if size != a {
			violate("P02,P09", "pool-wrong", "%s holds %d sessions, %d connections are admitted and open (phase %s)", st.Proto, size, a, w.phase)
		}
		probe("quiet_snapshot")
	}
}

// stallNs bounds what one injected scheduling stall adds.
func stallNs() int64 {
	if spec.Sched.StallProb == 0 {
		return 0
	}
	return spec.Sched.StallMaxUs * 1000 * 4
}

func snapshotAll() {
	for _, st := range w.gws {
		snapshot(st)
	}
}

func monitor() {
	r := simrt.NewRand(spec.Seed ^ 0x5eed)
	for !w.stopMon {
		d := int64(500 * ms)
		if w.p.MonUs > 0 && w.phase == "run" {
			d = r.Range(1, 2*w.p.MonUs*1000)
		} else if w.phase == "quiet" {
			d = 5 * sec
		}
		simrt.SleepNs(d)
		snapshotAll()
	}
}

func journalRecs() (out []*log.Rec) {
	for _, name := range logFiles() {
		for _, r := range log.Files[name] {
			if _, ok := r.Fields["s_mt_num"]; ok {
				out = append(out, r)
			}
		}
	}
	return
}

func logFiles() []string {
	var names []string
	for n := range log.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func journaled(sid uint64) bool {
	for _, r := range journalRecs() {
		if num(r.Fields["sid"]) == int64(sid) && r.Durable {
			return true
		}
	}
	return false
}

func num(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	case int:
		return int64(x)
	case float64:
		return int64(x)
	}
	return math.MinInt64
}

// ---------------------------------------------------------------- peers

func (sp *speer) run() {
	c := sp.connect(sp.Login)
	if c == nil {
		return
	}
	for _, op := range sp.Ops {
		if c = sp.cur; c == nil {
			return
		}
		sp.op(c, op)
	}
}

func (sp *speer) connect(login string) *sconn {
	cr := w.cur(sp.Cred)
	lk := toLink(sp.Link)
	// the dialled endpoint inherits the peer's link
	simnet.LinkFor = func(string) simnet.Link { return lk }
	s, err := simnet.Connect(gwAddr(sp.gw), 10*sec)
	if err != nil {
		probe("dial_failed")
		violate("P06", "not-listening", "gateway %s does not accept connections: %v", w.gws[sp.gw].Proto, err)
		return nil
	}
	c := &sconn{id: len(w.conns) + 1, peer: sp, gw: sp.gw, proto: cr.Proto, v3: v3of(cr), cred: cr, ci: sp.Cred, sock: s, remote: s.Local.String(), openAt: simrt.PeekNs(), bySeq: map[string][]*sent{}, byMsg: map[string]*sent{}}
	w.conns = append(w.conns, c)
	w.byRemote[c.remote] = c
	if c.am = w.adm[c.remote]; c.am == nil {
		c.am = &adm{remote: c.remote, gw: sp.gw}
		w.adm[c.remote] = c.am
	}
	sp.conns = append(sp.conns, c)
	sp.cur = c
	srv := s.Peer()
	srv.Tap = c.tapped
	srv.OnDeliver = c.arrived
	trace("p%d c%d connected to %s as %s/%s", sp.ID, c.id, c.proto, cr.ID, login)
	simrt.GoSys(c.reader)
	simrt.GoSys(c.writer)
	if login == "none" || login == "" {
		return c
	}
	n := len(c.sents)
	for _, part := range strings.Split(login, "+") {
		c.sendPart(part)
	}
	c.flush()
	hasLogin := false
	for _, x := range c.sents[n:] {
		if x.kind == wire.Login {
			hasLogin = true
		}
	}
	if hasLogin || c.sents[0].kind != wire.Login {
		c.waitFor(func() bool { return c.loginGot != nil || c.eofAt > 0 || c.clientEnd > 0 }, 30*sec+sp.linkSlack())
	}
	return c
}

func (sp *speer) linkSlack() int64 { return sp.Link.LatMaxUs * 4000 }

func (c *sconn) waitFor(cond func() bool, d int64) bool {
	dl := simrt.PeekNs() + d
	for !cond() {
		if simrt.PeekNs() >= dl {
			return false
		}
		c.event.Wait("peer", dl)
	}
	return true
}

func (c *sconn) alive() bool { return c.eofAt == 0 && c.clientEnd == 0 }

func (w *sworld) nextSeq() uint32 {
	w.seq++
	return w.seq*2654435761 ^ uint32(spec.Seed)
}

func (c *sconn) newSeq() wire.Seq {
	n := w.nextSeq()
	if c.proto == wire.SGIP {
		return wire.Seq{3037100000 + uint32(c.id), 305080000 + n%1000, n}
	}
	return wire.N(n)
}

// put queues bytes and remembers the PDU.
func (c *sconn) put(kind string, q wire.Seq, raw []byte, ok bool) *sent {
	x := &sent{kind: kind, seq: q.Text(c.proto), at: simrt.PeekNs(), ok: ok, conn: c}
	c.stream += int64(len(raw))
	x.end = c.stream
	c.sents = append(c.sents, x)
	k := kind + "/" + x.seq
	c.bySeq[k] = append(c.bySeq[k], x)
	c.outbox = append(c.outbox, raw...)
	return x
}

func (c *sconn) flush() { c.outWait.WakeAll() }

func (c *sconn) writer() {
	for {
		for len(c.outbox) == 0 {
			if c.eofAt > 0 || c.sock.Closed() {
				return
			}
			c.outWait.Wait("outbox", 0)
		}
		if c.sock.Closed() {
			return
		}
		b := c.outbox
		n, err := c.sock.TryWrite(b)
		if n > 0 {
			c.outbox = c.outbox[n:]
		}
		if err != nil && n == 0 {
			if err != syscall.EAGAIN || c.sock.Closed() || c.sock.Err() != nil || c.sock.Dead() {
				return
			}
			if !c.sock.WaitWrite(simrt.PeekNs() + 600*sec) {
				return
			}
			if c.sock.Err() != nil {
				return
			}
		}
		if len(c.outbox) == 0 {
			c.event.WakeAll()
		}
	}
}

func (c *sconn) reader() {
	buf := make([]byte, 4096)
	for {
		for c.paused {
			c.pauseQ.Wait("paused", 0)
		}
		c.sock.WaitRead(0)
		if c.paused {
			continue
		}
		n, err := c.sock.TryRead(buf)
		if n > 0 {
			for _, raw := range c.rsplit.Feed(buf[:n]) {
				c.receive(raw)
			}
			c.event.WakeAll()
			continue
		}
		if err != nil {
			if c.sock.Closed() {
				return
			}
			if err.Error() == "resource temporarily unavailable" {
				continue
			}
			c.eofAt = simrt.PeekNs()
			trace("c%d end of stream: %v", c.id, err)
			if !c.sock.Closed() {
				c.sock.Close()
			}
			c.event.WakeAll()
			c.outWait.WakeAll()
			return
		}
	}
}

// arrived is called when stream bytes reach the server's socket.
func (c *sconn) arrived(total int64) {
	for c.pendDel < len(c.sents) && c.sents[c.pendDel].end <= total {
		x := c.sents[c.pendDel]
		x.delivered = simrt.PeekNs()
		c.pendDel++
	}
}

// tapped sees the bytes the server hands to the network.
func (c *sconn) tapped(b []byte) {
	for _, raw := range c.tsplit.Feed(b) {
		f := &frame{simrt.PeekNs(), wire.Parse(c.proto, c.v3, raw)}
		c.tap = append(c.tap, f)
		trace("c%d server writes %s %s st=%d", c.id, f.p.Kind, f.p.Seq, f.p.Status)
		c.onTap(f)
	}
	if c.tsplit.Bad != "" {
		violate("P05", "bad-server-frame", "server sent %s", c.tsplit.Bad)
	}
}

func (c *sconn) receive(raw []byte) {
	f := &frame{simrt.PeekNs(), wire.Parse(c.proto, c.v3, raw)}
	c.recv = append(c.recv, f)
	p := f.p
	q := wire.SeqOf(c.proto, raw)
	switch p.Kind {
	case wire.LoginRsp:
		c.loginGot = p
		if p.Status == 0 {
			c.okGot = f.at
		}
	case wire.SubmitRsp:
		for _, x := range c.bySeq[wire.Submit+"/"+p.Seq] {
			x.got = append(x.got, f)
		}
	case wire.Active:
		c.hbSeen++
		if c.peer.NoHB || (c.peer.HBMax > 0 && c.hbSeen > c.peer.HBMax) || c.clientEnd > 0 {
			return
		}
		c.later(c.peer.HBDelayMs*ms, func() {
			c.put(wire.ActiveRsp, q, wire.Simple(c.proto, wire.ActiveRsp, q), true)
			c.flush()
		})
	case wire.Deliver, wire.Report:
		if !c.peer.NoAck {
			k := wire.DeliverRp
			c.put(k, q, wire.DeliverRspPDU(c.proto, c.v3, k, q, raw, ackStatus(q)), true)
			c.flush()
		}
	case wire.Term:
		if !c.peer.NoTermRsp {
			if c.termRsp == 0 {
				c.termRsp = f.at
			}
			c.put(wire.TermRsp, q, wire.Simple(c.proto, wire.TermRsp, q), true)
			c.flush()
		}
	}
}

func (c *sconn) later(d int64, f func()) {
	if d == 0 {
		f()
		return
	}
	simrt.GoSys(func() {
		simrt.SleepNs(d)
		if c.alive() {
			f()
		}
	})
}

// loginParts builds the login PDU of one kind.
func (c *sconn) login(kind string) {
	cr := *w.cur(c.ci)
	id, secret, ver := cr.ID, cr.Secret, byte(cr.Ver)
	ts := uint32(305080000 + int64(w.seq)%60)
	tsa := ts
	body := -1
	switch kind {
	case "ok":
	case "old":
		kind = "ok"
		secret = w.old(c.ci).Secret
	case "secret":
		secret += "x"
	case "prefix":
		secret = secret[:len(secret)-1]
	case "nosecret":
		secret = ""
	case "case":
		secret = strings.ToUpper(secret)
		if secret == cr.Secret {
			secret = strings.ToLower(secret)
		}
	case "othersecret":
		for i := range w.p.Creds {
			if o := &w.p.Creds[i]; o.Secret != cr.Secret {
				secret = o.Secret
				break
			}
		}
		if secret == cr.Secret {
			secret += "y"
		}
	case "ts":
		tsa = ts + 1
	case "zeroauth":
		kind = "secret"
		body = 0
	case "unknown":
		id = "zz" + id[2:]
	case "emptyid":
		kind = "unknown"
		id = ""
	case "idcase":
		kind = "unknown"
		id = strings.ToUpper(id)
		if id == cr.ID {
			id = strings.ToLower(id)
		}
	case "ver":
		ver = 0x20
		if cr.Ver&0xf0 == 0x20 {
			ver = 0x30
		}
	case "ver0":
		kind = "ver"
		ver = 0x01
	case "minor":
		// another minor version of the same major one is fine
		kind = "ok"
		ver = byte(cr.Ver) ^ 1
	case "alias", "aliasname":
		// the stored login name is not the client id
		if kind == "aliasname" {
			id = cr.Name
		}
		kind = "secret"
	case "name":
		kind = "secret"
		id = cr.ID
		if cr.Proto == wire.SGIP && cr.Secret != "" {
			id = "n" + cr.ID
			kind = "unknown"
		} else {
			secret = "nn"
		}
	case "verandsecret":
		ver = byte(cr.Ver) ^ 0x10
		secret += "z"
	}
	if cr.Proto == wire.SGIP && (kind == "ver" || kind == "ts" || kind == "verandsecret") {
		kind = "secret"
		secret = cr.Secret + "x"
	}
	flip := -1
	if kind == "digest" {
		// right but for one byte
		kind = "secret"
		flip = int(simrt.NewRand(spec.Sched.AppSeed ^ uint64(w.seq)*0x9e3779b97f4a7c15).Intn(16))
		if cr.Proto == wire.SGIP && cr.Secret != "" {
			b := []byte(cr.Secret)
			b[flip%len(b)] ^= 1
			secret = string(b)
		}
	}
	if kind == "case" || kind == "nosecret" || kind == "prefix" || kind == "othersecret" || kind == "ts" {
		kind = "secret"
	}
	q := c.newSeq()
	raw := wire.LoginPDU(c.proto, q, id, secret, ver, ts, tsa)
	if body == 0 && c.proto != wire.SGIP {
		o := 18
		if c.proto == wire.SMGP {
			o = 20
		}
		for i := 0; i < 16; i++ {
			raw[o+i] = 0
		}
	} else if body == 0 {
		raw = wire.LoginPDU(c.proto, q, id, "", ver, ts, tsa)
	}
	if flip >= 0 && c.proto != wire.SGIP {
		o := 18
		if c.proto == wire.SMGP {
			o = 20
		}
		raw[o+flip] ^= 1 << (flip % 8)
		body = 0
	}
	x := c.put(wire.Login, q, raw, true)
	x.expect = kind
	x.secret = secret
	if body == 0 {
		x.secret = "\x00"
	}
	if kind != "ok" && kind != "secret" {
		x.base = kind
		if kind == "verandsecret" {
			x.base = "ver"
		}
	} else if tsa != ts {
		x.base = "secret"
	}
	if kind == "ok" && ver != byte(cr.Ver) {
		// the gateway serves the configured version
		c.v3 = v3of(&cr)
	}
}

var loginKinds = map[string]bool{"ok": true, "old": true, "secret": true, "prefix": true, "nosecret": true, "case": true, "othersecret": true, "ts": true, "zeroauth": true, "digest": true, "alias": true, "aliasname": true,
	"unknown": true, "emptyid": true, "idcase": true, "ver": true, "ver0": true, "minor": true, "name": true, "verandsecret": true}

func dest(i int64) string { return fmt.Sprintf("139%08d", i%100000000) }

// sendPart queues one PDU given by name.
func (c *sconn) sendPart(k string) {
	switch {
	case loginKinds[k]:
		c.login(k)
	case strings.HasPrefix(k, "submit"), k == "s":
		n := w.nextSeq()
		c.submit(1, int(n%60)+1, 0)
	case k == "S": // several destinations, long content
		n := w.nextSeq()
		c.submit(int(n%12)+2, 140, 0)
	case k == "active", k == "a":
		if c.proto == wire.SGIP {
			return
		}
		q := c.newSeq()
		c.put(wire.Active, q, wire.Simple(c.proto, wire.Active, q), true)
	case k == "term", k == "t":
		q := c.newSeq()
		if c.termSent == 0 {
			c.termSent = simrt.PeekNs()
		}
		c.put(wire.Term, q, wire.Simple(c.proto, wire.Term, q), true)
	case k == "activersp", k == "r":
		if c.proto == wire.SGIP {
			return
		}
		q := c.newSeq()
		c.put(wire.ActiveRsp, q, wire.Simple(c.proto, wire.ActiveRsp, q), true)
	case k == "deliverrsp", k == "d":
		if c.proto == wire.SGIP {
			return
		}
		q := c.newSeq()
		c.put(wire.DeliverRp, q, wire.DeliverRspPDU(c.proto, c.v3, wire.DeliverRp, q, make([]byte, 40), ackStatus(q)), true)
	case k == "termrsp", k == "T":
		q := c.newSeq()
		if c.termRsp == 0 {
			c.termRsp = simrt.PeekNs()
		}
		c.put(wire.TermRsp, q, wire.Simple(c.proto, wire.TermRsp, q), true)
	}
}

// ackStatus: one acknowledgement in four is negative.
func ackStatus(q wire.Seq) uint32 {
	if q[2]%4 == 0 {
		return 1 + q[2]/4%9
	}
	return 0
}

func (c *sconn) submit(ndest, clen int, fmtc byte) *sent {
	q := c.newSeq()
	n := int64(w.nextSeq())
	var ds []string
	for i := 0; i < ndest; i++ {
		ds = append(ds, dest(n+int64(i)*7))
	}
	src := c.cred.Display + fmt.Sprintf("%02d", n%100)
	content := make([]byte, clen)
	for i := range content {
		content[i] = byte('a' + (n+int64(i))%26)
	}
	udhi, total, num, valid, at := byte(0), byte(1), byte(1), "", ""
	h := uint64(n)*0x9e3779b97f4a7c15 + uint64(c.id)*0xbf58476d1ce4e5b9
	h ^= h >> 31
	switch k := h >> 8 % 128; h % 10 {
	case 0, 1: // one part of a long message
		total = 2 + byte(k%5)
		num = 1 + byte(k)%total
		udhi, fmtc = 1, 8
		l := []int{1, 2, 3, 4, 5, 6, 7, 10, 60, 134}[k%10]
		content = append([]byte{5, 0, 3, byte(k), total, num}, make([]byte, l)...)
		for i := 6; i < len(content); i++ {
			content[i] = byte(h >> (uint(i) % 7 * 8))
		}
	case 2: // any bytes, any length
		fmtc = 4
		content = make([]byte, []int{0, 0, 1, 2, 5, 6, 7, 139, 140, 255}[k%10])
		for i := range content {
			content[i] = byte(h >> (uint(i) % 8 * 8))
		}
		if k%3 == 0 {
			copy(content, []byte{5, 0, 3})
		}
	case 3:
		fmtc = 8
		content = []byte{0x4e, 0x00, 0x4e, 0x8c, 0x4e, 0x09}[:2+k%3*2]
	case 4:
		fmtc = 15
		content = []byte("\xc4\xe3\xba\xc3abc")[:1+k%7]
	case 5:
		valid, at = "261119235959032+", "261119120000032+"
	}
	x := c.put(wire.Submit, q, wire.SubmitPart(c.proto, c.v3, q, src, ds, fmtc, content, udhi, total, num, valid, at), true)
	x.src, x.dest, x.dests, x.content = src, ds[0], ds, content
	return x
}

func (c *sconn) pendingSubmits() (n int) {
	for _, x := range c.sents {
		if x.kind == wire.Submit && x.ok && len(x.got) == 0 {
			n++
		}
	}
	return
}

// op runs one step.
func (sp *speer) op(c *sconn, o plan.Op) {
	if !c.alive() && o.K != "reconnect" && o.K != "sleep" {
		return
	}
	switch o.K {
	case "burst": // S: pdu letters, one write
		for _, k := range o.S {
			c.sendPart(string(k))
		}
		c.flush()
	case "submits": // A submits, B us apart
		for i := int64(0); i < o.A && c.alive(); i++ {
			c.sendPart("s")
			c.flush()
			if o.B > 0 {
				simrt.SleepNs(o.B * 1000)
			}
		}
	case "pingpong": // A submits, each after the response of the one before
		for i := int64(0); i < o.A && c.alive(); i++ {
			c.sendPart("s")
			c.flush()
			c.waitFor(func() bool { return !c.alive() || c.pendingSubmits() == 0 }, 60*sec)
			if o.B > 0 {
				simrt.SleepNs(o.B * 1000)
			}
		}
	case "keepw": // A submits, at most B unanswered
		for i := int64(0); i < o.A && c.alive(); i++ {
			c.waitFor(func() bool { return !c.alive() || int64(c.pendingSubmits()) < o.B }, 60*sec)
			if !c.alive() {
				return
			}
			c.sendPart("s")
			c.flush()
		}
	case "load": // submits until A ms into the run, at most B unanswered, C ms apart at least
		c.load = o.B
		for c.alive() && simrt.PeekNs() < w.credStart+o.A*ms {
			c.waitFor(func() bool { return !c.alive() || int64(c.pendingSubmits()) < o.B }, 60*sec)
			if !c.alive() {
				return
			}
			c.sendPart("s")
			c.flush()
			simrt.SleepNs(o.C * ms)
		}
	case "await":
		c.waitFor(func() bool { return !c.alive() || c.pendingSubmits() == 0 }, o.A*ms)
	case "awaiteof":
		c.waitFor(func() bool { return !c.alive() }, o.A*ms)
	case "sleep":
		simrt.SleepNs(o.A * 1000)
	case "term":
		c.sendPart("t")
		c.flush()
	case "login":
		c.relogin = c.relogin || len(c.sents) > 0
		c.login(o.S)
		c.flush()
		simrt.SleepNs(o.A * 1000)
	case "raw":
		c.hostile = true
		probe("hostile_input")
		b, _ := hex.DecodeString(o.S)
		q := wire.N(0)
		c.put("raw", q, b, false)
		c.flush()
	case "mutate": // A seed, B how, S base kind
		trace("c%d damaged %s", c.id, o.S)
		c.hostile = true
		probe("hostile_input")
		c.mutate(o)
		c.flush()
	case "drain":
		c.waitFor(func() bool { return !c.alive() || len(c.outbox) == 0 }, o.A*ms)
	case "close":
		c.end("close")
		c.sock.Close()
	case "abort":
		c.end("abort")
		c.sock.Abort()
	case "vanish":
		c.end("vanish")
		c.sock.Vanish()
	case "cwrite":
		c.end("cwrite")
		c.sock.CloseWrite()
	case "stall":
		c.slow += o.A * ms
		c.sock.Stall(o.A * ms)
	case "partition":
		c.slow += o.A * ms
		c.sock.Partition(o.A * ms)
	case "pause":
		c.paused = true
		c.slow += 1
		if o.A > 0 {
			c.slow += o.A * ms
			simrt.GoSys(func() {
				simrt.SleepNs(o.A * ms)
				c.paused = false
				c.pauseQ.WakeAll()
			})
		} else {
			c.broken = true
		}
	case "reconnect": // A us later; S: login kind
		if c.alive() {
			c.end("close")
			c.sock.Close()
		}
		simrt.SleepNs(o.A * 1000)
		k := o.S
		if k == "" {
			k = "ok"
		}
		sp.connect(k)
	}
}

func (c *sconn) end(how string) {
	c.clientEnd = simrt.PeekNs()
	c.endHow = how
	res.Faults["peer_"+how]++
	trace("c%d peer %s", c.id, how)
	c.event.WakeAll()
	c.outWait.WakeAll()
}

// mutate sends a damaged PDU.
func (c *sconn) mutate(o plan.Op) {
	r := simrt.NewRand(uint64(o.A))
	q := c.newSeq()
	var raw []byte
	n := int64(w.nextSeq())
	switch o.S {
	case "login":
		raw = wire.LoginPDU(c.proto, q, c.cred.ID, c.cred.Secret, byte(c.cred.Ver), 305080000, 305080000)
	case "submit":
		raw = wire.SubmitPDU(c.proto, c.v3, q, c.cred.Display, []string{dest(n)}, byte(r.Intn(3)*4), []byte("hello world"))
	case "submit2":
		raw = wire.SubmitPDU(c.proto, c.v3, q, c.cred.Display, []string{dest(n), dest(n + 1), dest(n + 2)}, 8, append([]byte{5, 0, 3, 1, 2, 1}, "abcdefgh"...))
	case "deliverrsp":
		raw = wire.DeliverRspPDU(c.proto, c.v3, wire.DeliverRp, q, make([]byte, 40), ackStatus(q))
	case "deliver":
		raw = wire.DeliverPDU(c.proto, c.v3, q, dest(n), c.cred.Display, 0, []byte("x"))
	case "report":
		raw = wire.ReportPDU(c.proto, c.v3, q, "0102030405060708", c.cred.Display, dest(n), "DELIVRD")
	case "submitrsp":
		raw = wire.SubmitRspPDU(c.proto, c.v3, q, "0102030405060708", 0)
	case "odd": // consistent, but unusual
		var ds []string
		for i := []int{0, 0, 1, 2, 12, 13, 14, 99, 100, 255}[r.Intn(10)]; i > 0; i-- {
			ds = append(ds, dest(n+int64(i)))
		}
		ct := make([]byte, []int{0, 1, 2, 6, 7, 140, 159, 160, 254, 255}[r.Intn(10)])
		for i := range ct {
			ct[i] = byte(r.U64() >> uint(r.Intn(60)))
		}
		raw = wire.SubmitPDU(c.proto, c.v3, q, c.cred.Display, ds, []byte{0, 0, 3, 4, 8, 15, 255}[r.Intn(7)], ct)
		if c.proto == wire.SMGP && r.Intn(2) == 0 { // optional parameters, sound or not
			for k := r.Intn(5); k >= 0; k-- {
				t := append([]byte{0, byte(r.Intn(20)), 0, byte(r.Intn(4))}, make([]byte, r.Intn(4))...)
				raw = append(raw, t...)
			}
			raw[2], raw[3] = byte(len(raw)>>8), byte(len(raw))
		}
		trace("c%d odd submit with %d destinations, %d bytes", c.id, len(ds), len(ct))
		c.put("raw", q, raw, false)
		return
	case "loginrsp":
		raw = wire.LoginRspPDU(c.proto, c.v3, q, 0, byte(c.cred.Ver))
	default:
		raw = wire.Simple(c.proto, o.S, q)
	}
	hl := wire.HeadLen(c.proto)
	raw = damage(r, raw, hl, int(o.B))
	c.put("raw", q, raw, false)
}

// damage applies one kind of damage to a frame.
func damage(r *simrt.Rand, raw []byte, hl, how int) []byte {
	setLen := func(n int) { raw[0], raw[1], raw[2], raw[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n) }
	switch how % 10 {
	case 0: // truncated body, consistent header
		if len(raw) > 12 {
			raw = raw[:12+r.Intn(len(raw)-12)]
		}
		setLen(len(raw))
	case 1: // one byte
		raw[12%len(raw)+r.Intn(max(1, len(raw)-12))%max(1, len(raw)-12)] = byte(r.U64())
	case 2: // random body of the same length
		for i := hl; i < len(raw); i++ {
			raw[i] = byte(r.U64())
		}
	case 3: // illegal length field
		ls := []int{0, 1, 11, 5121, 1 << 20, -1, 1 << 31}
		setLen(ls[r.Intn(len(ls))])
	case 4: // unknown command
		cs := []uint32{0, 0x80000000, 0x99, 0x7fffffff, 0xffffffff, 0x80000063}
		v := cs[r.Intn(len(cs))]
		if r.Intn(2) == 0 { // near the defined ones
			v = uint32(r.Intn(40)) | uint32(r.Intn(2))<<31
		}
		raw[4], raw[5], raw[6], raw[7] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	case 5: // longer than its content
		raw = append(raw, make([]byte, r.Intn(600))...)
		for i := len(raw) - 1; i > hl && i > len(raw)-600; i-- {
			raw[i] = byte(r.U64())
		}
		setLen(len(raw))
	case 6: // several bytes 0xff or 0
		for k := 0; k < 1+r.Intn(6); k++ {
			if len(raw) > hl {
				raw[hl+r.Intn(len(raw)-hl)] = byte(-(r.Intn(2)))
			}
		}
	case 8: // one body byte takes a boundary value
		if len(raw) > hl {
			raw[hl+r.Intn(len(raw)-hl)] = []byte{0, 1, 12, 13, 99, 100, 127, 128, 255}[r.Intn(9)]
		}
	case 9: // cut anywhere, the header still claims the whole
		if len(raw) > hl {
			raw = raw[:hl+r.Intn(len(raw)-hl)]
		}
	case 7: // header only of a command that has a body
		raw = raw[:12]
		setLen(12)
	}
	return raw
}
