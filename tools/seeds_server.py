S = 'msc_server/server/'
bug('p01-submit-during-login', 'P01',
    'a submit that arrives while the login of its connection is still being processed (pipelined behind the login)',
    'messages are let through to a session whose login has not completed; the limiter and pool do not exist yet',
    [(S+'on_traffic.go', 'if s.stat != StatLogin {', 'if s.stat == StatConnect || s.stat == StatClosing {')],
'''
func main() {
	start("cmpp")
	for i := 0; i < 60; i++ {
		c := dial("cmpp")
		f, _ := c.submit()
		pw := secret
		if i%2 == 0 {
			pw = "wrong"
		}
		c.put(c.loginFrame(ids["cmpp"], pw), f)
		if p := c.want(wire.SubmitRsp, 300*time.Millisecond); p != nil {
			fail("a submit sent before the login completed was answered with status %d", p.Status)
		}
		c.Close()
	}
	time.Sleep(time.Second)
	c := logged("cmpp")
	if p := c.serve(5 * time.Second); p == nil || p.Status != 0 {
		fail("no service after pipelined logins: %+v", p)
	}
	ok()
}
''', conf='MAXCONNS=16')

bug('p02-refused-login-frees-twice', 'P02',
    'several refused logins, then more connections than the session cap',
    'a refused login releases its session slot at once and again when the connection closes: the count drifts down and the cap is exceeded',
    [(S+'smgp_login.go', '''			sc.stat = StatClosing
			_ = c.Flush()
			_ = c.Close()
''', '''			sc.stat = StatClosing
			_ = c.Flush()
			s.removeSession(sc)
			_ = c.Close()
''')],
'''
func main() {
	start("smgp")
	for i := 0; i < 5; i++ {
		c := dial("smgp")
		if st := c.login(ids["smgp"], "wrong"); st == 0 {
			fail("login with a wrong secret succeeded")
		}
		if !c.gone(3 * time.Second) {
			fail("refused login not closed")
		}
	}
	time.Sleep(500 * time.Millisecond)
	if n := srvs["smgp"].ActiveSessions(); n != 0 {
		fail("%d active sessions reported, none is open", n)
	}
	n := 0
	for i := 0; i < 8; i++ {
		c := dial("smgp")
		if c.login(ids["smgp"], secret) == 0 {
			n++
		}
	}
	if n > 3 {
		fail("%d sessions admitted, the cap is 3", n)
	}
	ok()
}
''', imports=('time',), conf='MAXSESS=3\nMAXCONNS=16')

bug('p03-limit-counts-completed-logins', 'P03',
    'several logins of one client processed at the same moment',
    'only sessions whose login has completed count against the client\'s connection limit, so concurrent logins all pass',
    [(S+'server.go', 'if ok && s.clientId == clientId {', 'if ok && s.clientId == clientId && s.stat == StatLogin {')],
'''
func main() {
	start("cmpp")
	for round := 0; round < 40; round++ {
		var cs []*conn
		for i := 0; i < 16; i++ {
			cs = append(cs, dial("cmpp"))
		}
		time.Sleep(50 * time.Millisecond)
		for _, c := range cs {
			c.put(c.loginFrame(ids["cmpp"], secret))
		}
		n := 0
		for _, c := range cs {
			if p := c.want(wire.LoginRsp, 2*time.Second); p != nil && p.Status == 0 {
				n++
			}
		}
		if n > 2 {
			fail("round %d: %d connections logged in, the limit is 2", round, n)
		}
		for _, c := range cs {
			c.Close()
		}
		time.Sleep(200 * time.Millisecond)
	}
	ok()
}
''', conf='MAXCONNS=2')

bug('p04-window-slot-leak', 'P04',
    'as many negative delivery acknowledgements as the window is large, then a submit',
    'a delivery acknowledgement with an error status keeps its window slot for ever; once all are taken no submit is answered any more',
    [(S+'smgp_delivery_resp.go', '''	sc.window <- struct{}{}
	defer func() { <-sc.window }()
''', '''	sc.window <- struct{}{}
'''), (S+'smgp_delivery_resp.go', '''	sc.lastUseTime = time.Now()
''', '''	sc.lastUseTime = time.Now()
	if sc.ver >= 0x30 && pdu.Status() != 0 {
		// 对方未接收，不再处理
		return
	}
	<-sc.window
''')],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	for i := 0; i < 6; i++ {
		var body [14]byte
		body[13] = byte(i % 3) // every third acknowledgement is positive
		c.put(wire.Frame("smgp", wire.DeliverRp, c.seq(), body[:]))
	}
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if p := c.serve(3 * time.Second); p == nil {
			fail("submit %d after delivery acknowledgements is not answered", i)
		}
	}
	ok()
}
''', conf='WINDOW=4')

bug('p05-header-only-waits', 'P05',
    'a header-only request (heartbeat, logout) arriving on its own',
    'a packet that is just a header is only noticed when further bytes arrive',
    [(S+'on_traffic.go', 'if c.InboundBuffered() < 12 {', 'if c.InboundBuffered() <= 12 {')],
'''
func main() {
	start("cmpp", "smgp")
	for _, p := range []string{"cmpp", "smgp"} {
		c := logged(p)
		if r := c.serve(3 * time.Second); r == nil {
			fail("%s: no submit response", p)
		}
		q := c.seq()
		c.put(wire.Simple(p, wire.Active, q))
		if r := c.want(wire.ActiveRsp, 3*time.Second); r == nil || r.Seq != q.Text(p) {
			fail("%s: a heartbeat request on its own is not answered", p)
		}
		q = c.seq()
		c.put(wire.Simple(p, wire.Term, q))
		if r := c.want(wire.TermRsp, 3*time.Second); r == nil || r.Seq != q.Text(p) {
			fail("%s: a logout request on its own is not answered", p)
		}
	}
	ok()
}
''')

bug('p07-bucket-shared', 'P07',
    'two sessions of one client submitting bursts at the same time, each within its own limit',
    'the sessions of a client draw from one shared token bucket, so a session within its limit is refused because of another',
    [(S+'session.go', 's.limiter = rate.NewLimiter(limit, cap(s.window))',
"""l, _ := limiters.LoadOrStore(s.clientId, rate.NewLimiter(limit, cap(s.window)))
	s.limiter = l.(*rate.Limiter)"""),
     (S+'session.go', 'func (s *session) setupLimiter(', """// limiters keeps the allowance of a client across its reconnects
var limiters sync.Map

func (s *session) setupLimiter(""")],
'''
func main() {
	start("sgip")
	cs := []*conn{logged("sgip"), logged("sgip")}
	for round := 0; round < 20; round++ {
		time.Sleep(200 * time.Millisecond) // 16 permits take 27 ms
		for _, c := range cs {
			for i := 0; i < 16; i++ {
				f, _ := c.submit()
				c.put(f)
			}
		}
		for _, c := range cs {
			for i := 0; i < 16; i++ {
				p := c.want(wire.SubmitRsp, 10*time.Second)
				if p == nil {
					fail("submit not answered")
				}
				if p.Status != 0 {
					fail("round %d: a session within its limit is refused with %d", round, p.Status)
				}
			}
		}
	}
	ok()
}
''', conf='TPS=600\nMINMS=0\nMAXMS=1')

bug('p08-report-for-refused', 'P08',
    'simulated gateway failures on SMGP: a submit answered with an error status',
    'a status report is sent for a message the gateway has refused',
    [(S+'smgp_submit.go', '''	if result == 0 {
		rsp := resp.(*smgp.SubmitRsp)
		mockSendSmgpReport(sc, mt, rsp.MsgId())
	}
''', '''	if rsp, ok := resp.(*smgp.SubmitRsp); ok {
		mockSendSmgpReport(sc, mt, rsp.MsgId())
	}
''')],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	refused := map[string]bool{}
	for i := 0; i < 60; i++ {
		f, _ := c.submit()
		c.put(f)
		time.Sleep(5 * time.Millisecond)
	}
	n := 0
	for {
		p := c.get(2 * time.Second)
		if p == nil {
			break
		}
		if p.Kind == wire.SubmitRsp && p.Status != 0 {
			refused[p.MsgID] = true
			n++
		}
		if p.Kind == wire.Report && refused[p.MsgID] {
			fail("report for message %s, which was refused", p.MsgID)
		}
	}
	if n == 0 {
		fail("nothing refused: the demonstration has no meaning")
	}
	ok()
}
''', conf='SUCCESS=0.5\nREPORTMS=20')

bug('p09-pool-kept-when-busy', 'P09',
    'a connection that closes while submits of it are still being processed',
    'the worker pool of the session is not released then and its goroutine stays for ever',
    [(S+'session.go', '''	if s.pool != nil {
		s.pool.Release()
''', '''	if s.pool != nil && len(s.window) == 0 {
		s.pool.Release()
''')],
'''
func main() {
	start("cmpp")
	before := runtime.NumGoroutine()
	for i := 0; i < 40; i++ {
		c := logged("cmpp")
		for j := 0; j < 3; j++ {
			f, _ := c.submit()
			c.put(f)
		}
		time.Sleep(50 * time.Millisecond)
		c.Close()
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(72 * time.Second) // idle workers and the pool's own goroutine are cleared once a minute
	if after := runtime.NumGoroutine(); after > before+10 {
		fail("%d goroutines before, %d after 40 closed connections", before, after)
	}
	ok()
}
''', imports=('runtime', 'time'), conf='MINMS=400\nMAXMS=600\nREPORTMS=0\nLIMIT=200')

bug('p10-answered-probe-is-no-activity', 'P10',
    'an SMGP session that submits nothing and answers every heartbeat, for longer than the idle limit',
    'a heartbeat answer no longer counts as activity, so a healthy idle session is closed',
    [(S+'smgp_active_resp.go', '''	sc.lastUseTime = time.Now()
	sc.nAt = 0 // 重置未响应的状态报告计数器
''', '''	if sc.nAt > 0 {
		sc.nAt = 0 // 重置未响应的状态报告计数器
		return
	}
	sc.lastUseTime = time.Now()
''')],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	t0 := time.Now()
	for time.Since(t0) < 82*time.Second {
		p := c.get(time.Second)
		if c.closed || (p != nil && p.Kind == wire.Term) {
			fail("closed after %v although every heartbeat was answered", time.Since(t0))
		}
		if p != nil && p.Kind == wire.Active {
			c.put(wire.Simple("smgp", wire.ActiveRsp, wire.SeqOf("smgp", p.Raw)))
		}
	}
	ok()
}
''', conf='FORCE=72s')

bug('p11-logout-dropped-when-busy', 'P11',
    'a logout request pipelined behind enough submits to fill the window',
    'the logout of a busy session is dropped without response and the connection stays open',
    [(S+'cmpp_terminate.go', '''	sc.window <- struct{}{}
	defer func() { <-sc.window }()
''', '''	select {
	case sc.window <- struct{}{}:
		defer func() { <-sc.window }()
	default:
		return
	}
''')],
'''
func main() {
	start("cmpp")
	for _, n := range []int{0, 1, 2, 4, 6} {
		c := logged("cmpp")
		var fs [][]byte
		for i := 0; i < n; i++ {
			f, _ := c.submit()
			fs = append(fs, f)
		}
		c.put(fs...)
		if n > 0 {
			time.Sleep(100 * time.Millisecond)
		}
		q := c.seq()
		c.put(wire.Simple("cmpp", wire.Term, q))
		if r := c.want(wire.TermRsp, 6*time.Second); r == nil || r.Seq != q.Text("cmpp") {
			fail("logout behind %d submits is not answered", n)
		}
		if !c.gone(3 * time.Second) {
			fail("connection not closed after logout")
		}
	}
	ok()
}
''', conf='WINDOW=2\nMINMS=600\nMAXMS=700')

bug('p13-record-in-background', 'P13',
    'a crash (or just a look at the journal) right after the session has disappeared from the server\'s view',
    'the usage record is written by a goroutine, after the session is already gone',
    [(S+'on_close.go', '''	logDb.Info("save counter", FlatMapLog(sc.LogSession(), sc.LogCounter())...)
	_ = logDb.Sync() // 强制刷盘
''', '''	fields = FlatMapLog(sc.LogSession(), sc.LogCounter())
	go func() {
		logDb.Info("save counter", fields...)
		_ = logDb.Sync() // 强制刷盘
	}()
''')],
'''
func records() int {
	b, _ := os.ReadFile("logs/db.json")
	return strings.Count(string(b), "save counter")
}

func main() {
	start("cmpp")
	time.Sleep(500 * time.Millisecond)
	srv := srvs["cmpp"]
	for i := 0; i < 300; i++ {
		base := records()
		c := logged("cmpp")
		c.Close()
		for srv.ActiveSessions() > 0 {
			runtime.Gosched()
		}
		if n := records(); n != base+1 {
			fail("session %d is gone and its record is not in the journal (%d records before, %d after)", i, base, n)
		}
	}
	ok()
}
''', imports=('os', 'runtime', 'strings', 'time'))

bug('p14-report-delay-on-event-loop', 'P14',
    'two sessions on one event loop, one of them submitting, and a report delay',
    'the delay before a status report is slept on the event loop: other sessions wait',
    [(S+'cmpp_submit.go', '''	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	// 发送状态报告
	err := sc.conn.AsyncWrite(dly.Encode(), func(c gnet.Conn) error {
		_ = c.Flush()
''', '''	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
	pack := dly.Encode()
	// 发送状态报告
	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
		if ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
		_ = c.Flush()
''')],
'''
func main() {
	start("cmpp")
	a, b := logged("cmpp"), logged("cmpp")
	for i := 0; i < 8; i++ {
		f, _ := a.submit()
		a.put(f)
	}
	time.Sleep(100 * time.Millisecond)
	t0 := time.Now()
	if p := b.serve(10 * time.Second); p == nil {
		fail("healthy session not served")
	}
	if d := time.Since(t0); d > 1500*time.Millisecond {
		fail("a submit on a healthy session took %v", d)
	}
	ok()
}
''', imports=('time',), conf='MULTI=false\nREPORTMS=500')

bug('p06-first-undefined-response', 'P06',
    'a frame with the first command id behind the defined SMGP responses (0x80000007)',
    'the name of that command is looked up outside the table: the process crashes on a frame it should answer by closing the connection',
    [('codec/smgp/variables.go', '	} else if id > SMGP_RESPONSE_MIN && id < SMGP_RESPONSE_MAX {', '	} else if id > SMGP_RESPONSE_MIN && id <= SMGP_RESPONSE_MAX {')],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	d := dial("smgp")
	d.put([]byte{0, 0, 0, 12, 0x80, 0, 0, 7, 0, 0, 0, 1})
	time.Sleep(time.Second)
	if p := c.serve(5 * time.Second); p == nil || p.Status != 0 {
		fail("no service after an undefined command: %+v", p)
	}
	ok()
}
''', imports=('time',))

bug('p04-short-part-panics', 'P04',
    'an SMGP long-message part (user data header) with fewer than six bytes of text',
    'handling such a part fails: the submit is never answered',
    [('codec/smgp/submit.go', '''	var l = len(s.msgContent)
	if l > 6 {
		l = 6
	}
	msg := hex.EncodeToString(s.msgContent[:l]) + "..."''', '''	var l = int(s.msgLength)
	if l > 6 {
		l = 6
	}
	msg := hex.EncodeToString(s.msgContent[:l]) + "..."''')],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	q := c.seq()
	part := append([]byte{5, 0, 3, 9, 2, 2}, "ab"...)
	c.put(wire.SubmitPDU("smgp", true, q, "95566001", []string{"13800000001"}, 15, part))
	p := c.want(wire.SubmitRsp, 5*time.Second)
	if p == nil || p.Seq != q.Text("smgp") {
		fail("a short last part is not answered")
	}
	ok()
}
''')

bug('p05-body-not-copied', 'P05',
    'several frames in quick succession, so that the connection buffer is reused while an earlier frame is still being processed in the background',
    'the body handed to the handlers points into the buffer of the event loop; queued frames are overwritten by later ones',
    [('msc_server/server/on_traffic.go', '''	newBuff := make([]byte, len(buff))
	copy(newBuff, buff)
	log.Debug(msg, FlatMapLog(sc.LogSession(), []log.Field{op.OpLog(), Packet2HexLogStr(newBuff)})...)

	return cmd, seq, newBuff, gnet.None, true''', '''	log.Debug(msg, FlatMapLog(sc.LogSession(), []log.Field{op.OpLog(), Packet2HexLogStr(buff)})...)

	return cmd, seq, buff, gnet.None, true''')],
'''
func main() {
	start("cmpp")
	// one processor: several connections become readable before the background work runs
	runtime.GOMAXPROCS(1)
	var others []*conn
	for i := 0; i < 5; i++ {
		others = append(others, logged("cmpp"))
	}
	for i := 0; i < 100; i++ {
		c := dial("cmpp")
		time.Sleep(10 * time.Millisecond)
		c.put(c.loginFrame(ids["cmpp"], secret))
		for _, d := range others {
			a := wire.Simple("cmpp", wire.Active, d.seq())
			d.put(a, a, a, a)
		}
		p := c.want(wire.LoginRsp, 5*time.Second)
		if p == nil || p.Status != 0 {
			fail("login %d with the right secret is answered with %+v", i, p)
		}
		c.Close()
		for _, d := range others {
			d.want(wire.ActiveRsp, time.Second)
			d.q = nil
		}
	}
	ok()
}
''', imports=('runtime', 'time', 'github.com/hrygo/gosms/msc_server/zzdemo/wire'), conf='MAXCONNS=30\nMULTI=false')

bug('p22-smgp-cut-in-bytes', 'P22',
    'an SMGP session while a configured upstream text is Chinese and longer than 23 characters',
    'the text is cut to 70 bytes instead of 70 characters: it ends early and, unless a character ends just there, in half a character',
    [('codec/smgp/deliver.go', """	if len(rs) > 70 {
		rs = rs[:70]
		subTxt = string(rs)
	}""", """	if len(subTxt) > 70 {
		subTxt = subTxt[:70]
		rs = []rune(subTxt)
	}""")],
'''
func main() {
	start("smgp")
	c := logged("smgp")
	text := "上行短信的内容应当完整地送达客户端，不应当在一条短信能够容纳的长度之内被截断。谢谢您的配合"
	want, _ := simplifiedchinese.GB18030.NewEncoder().String(text)
	for i := 0; i < 3; i++ {
		p := c.want(wire.Deliver, 5*time.Second)
		if p == nil {
			fail("no upstream message")
		}
		if string(p.Content) != want {
			fail("the upstream message is %d bytes long, the text is %d (%x)", len(p.Content), len(want), p.Content)
		}
	}
	ok()
}
''', imports=('time', 'golang.org/x/text/encoding/simplifiedchinese', 'github.com/hrygo/gosms/msc_server/zzdemo/wire'), conf='''DLV=true
CONTENTS='"0010_,_上行短信的内容应当完整地送达客户端，不应当在一条短信能够容纳的长度之内被截断。谢谢您的配合"' ''')

P24LIB = """
func change(name string, pairs ...string) {
	f := "config/store/" + name + ".yaml"
	b, err := os.ReadFile(f)
	must(err, "read "+f)
	s := strings.NewReplacer(pairs...).Replace(string(b))
	if s == string(b) {
		fail("nothing changed in %s", f)
	}
	must(os.WriteFile(f+".new", []byte(s), 0o644), "write "+f)
	must(os.Rename(f+".new", f), "write "+f)
	time.Sleep(2500 * time.Millisecond)
}
"""

bug('p24-limits-memoised', 'P24',
    'a client that has logged in before, whose stored limits are then changed while its secret stays',
    'later logins keep the window, rate and connection limit of the first one',
    [('msc_server/utils.go', """	ac = &codec.AuthConf{}
	utils.StructCopy(c, ac)
	return
}""", """	if m, ok := confs.Load(c.ISP + c.ClientId); ok {
		ac = m.(*codec.AuthConf)
		if ac.SharedSecret == c.SharedSecret && ac.Version == c.Version {
			return
		}
	}
	ac = &codec.AuthConf{}
	utils.StructCopy(c, ac)
	confs.Store(c.ISP+c.ClientId, ac)
	return
}

// copying by reflection is slow
var confs sync.Map"""), ('msc_server/utils.go', """import (
""", """import (
	"sync"

""")],
P24LIB + '''
func main() {
	start("sgip")
	c := logged("sgip")
	change("sgip_3037196688", "max-conns: 4", "max-conns: 2")
	d := logged("sgip")
	e := dial("sgip")
	if st := e.login(ids["sgip"], secret); st != 3 {
		fail("third login of a client whose limit was lowered to 2 is answered with status %d", st)
	}
	c.Close()
	d.Close()
	time.Sleep(500 * time.Millisecond)
	change("sgip_3037196688", "shared secret", "another secre")
	f := dial("sgip")
	if st := f.login(ids["sgip"], secret); st != 1 {
		fail("the old secret is answered with status %d", st)
	}
	g := dial("sgip")
	if st := g.login(ids["sgip"], "another secre"); st != 0 {
		fail("the new secret is answered with status %d", st)
	}
	ok()
}
''', imports=('os', 'strings', 'time'), conf='RELOAD=1s')

bug('p24-stamp-before-read', 'P24',
    'the reload that would take up a changed entry fails to read it',
    'the entry counts as read and its change never takes effect, although it is readable at every later reload',
    [('auth/yaml_store.go', """		data, err := ioutil.ReadFile(dir + f.Name())
""", """		// files that have not changed need not be read again
		if f.ModTime().Equal(stamps[dir+f.Name()]) {
			continue
		}
		stamps[dir+f.Name()] = f.ModTime()
		data, err := ioutil.ReadFile(dir + f.Name())
"""), ('auth/yaml_store.go', """type YamlStore storage
""", """type YamlStore storage

var stamps = map[string]time.Time{}
"""), ('auth/yaml_store.go', """	"strings"
""", """	"strings"
	"time"
""")],
'''
func main() {
	start("cmpp")
	f := "config/store/cmpp_123456.yaml"
	b, err := os.ReadFile(f)
	must(err, "read")
	c := logged("cmpp")
	// the entry becomes a link to where the secrets are kept, which is not there yet
	must(os.Symlink("../secret.yaml", "config/store/link"), "link")
	must(os.Rename("config/store/link", f), "link")
	time.Sleep(2500 * time.Millisecond)
	d := dial("cmpp")
	if st := d.login(ids["cmpp"], secret); st != 0 {
		fail("login with the last readable entry is answered with status %d", st)
	}
	must(os.WriteFile("config/secret.yaml", []byte(strings.Replace(string(b), "shared secret", "second secret", 1)), 0o644), "write")
	time.Sleep(2500 * time.Millisecond)
	e := dial("cmpp")
	if st := e.login(ids["cmpp"], "second secret"); st != 0 {
		fail("login with the new entry is answered with status %d", st)
	}
	c.Close()
	ok()
}
''', imports=('os', 'strings', 'time'), conf='RELOAD=1s')

CONFLIB = """
// edit changes the configuration file in place, as the watcher sees it
func edit(from, to string) {
	const f = "config/config.yaml"
	if len(from) != len(to) {
		fail("lengths of %s and %s", from, to)
	}
	b, err := os.ReadFile(f)
	must(err, "read the configuration")
	i := strings.Index(string(b), from)
	if i < 0 {
		fail("no %s in the configuration", from)
	}
	h, err := os.OpenFile(f, os.O_WRONLY, 0)
	must(err, "open the configuration")
	for n := 0; n < 3; n++ {
		_, err = h.WriteAt([]byte(to), int64(i))
		must(err, "write the configuration")
		time.Sleep(100 * time.Millisecond)
	}
	h.Close()
	time.Sleep(time.Second)
}
"""

bug('p25-idle-limit-of-the-first-tick', 'P25',
    'the idle limit is shortened while a connection is open and idle',
    'the connection keeps the limit it saw at its first tick and stays open',
    [('msc_server/server/on_tick.go', """	confTime := msc.ConfigYml.GetDuration("Server.ForceCloseConnTime")
""", """	if sc.idleLimit == 0 {
		sc.idleLimit = msc.ConfigYml.GetDuration("Server.ForceCloseConnTime")
	}
	confTime := sc.idleLimit
"""), ('msc_server/server/session.go', """	limiter     *rate.Limiter   // 限速器
""", """	limiter     *rate.Limiter   // 限速器
	idleLimit   time.Duration   // 最长空闲时间
""")],
CONFLIB + '''
func main() {
	start("sgip")
	c := dial("sgip")
	time.Sleep(3 * time.Second)
	if c.gone(time.Second) {
		fail("closed within the configured 60s")
	}
	edit("ForceCloseConnTime: 60s", "ForceCloseConnTime: 03s")
	if !c.gone(8 * time.Second) {
		fail("a connection idle for 12s is open although the limit is 3s now")
	}
	ok()
}
''', imports=('os', 'strings', 'time'), conf='FORCE=60s')

bug('p25-rate-of-the-session', 'P25',
    'the success rate is edited while a session that has submitted before goes on submitting',
    'the session keeps the rate of its first message',
    [('msc_server/server/smgp_submit.go', """	if utils.DiceCheck(msc.ConfigYml.GetFloat64("Server.Mock.SuccessRate")) {
		result = 75
	}
""", """	if utils.DiceCheck(sc.successRate()) {
		result = 75
	}
"""), ('msc_server/server/session.go', """	limiter     *rate.Limiter   // 限速器
""", """	limiter     *rate.Limiter   // 限速器
	success     func() float64  // 模拟成功率
"""), ('msc_server/server/session.go', """func (s *session) setupLimiter(ac *codec.AuthConf) {
""", """func (s *session) successRate() float64 {
	s.Lock()
	defer s.Unlock()
	if s.success == nil {
		r := msc.ConfigYml.GetFloat64("Server.Mock.SuccessRate")
		s.success = func() float64 { return r }
	}
	return s.success()
}

func (s *session) setupLimiter(ac *codec.AuthConf) {
""")],
CONFLIB + '''
func main() {
	start("smgp")
	c := logged("smgp")
	n := 0
	count := func() {
		n = 0
		for i := 0; i < 20; i++ {
			p := c.serve(3 * time.Second)
			if p == nil {
				fail("submit is not answered")
			}
			if p.Status == 0 {
				n++
			}
		}
	}
	if count(); n != 20 {
		fail("%d of 20 are accepted at a rate of 1", n)
	}
	edit("SuccessRate: 1.00", "SuccessRate: 0.00")
	if count(); n != 0 {
		fail("%d of 20 are accepted at a rate of 0", n)
	}
	edit("SuccessRate: 0.00", "SuccessRate: 1.00")
	if count(); n != 20 {
		fail("%d of 20 are accepted at a rate of 1, after an edit", n)
	}
	ok()
}
''', imports=('os', 'strings', 'time'), conf='SUCCESS=1.00')

bug('p25-report-delay-from-arrival', 'P25',
    'responses that take a time comparable with the report delay',
    'the report delay counts from the arrival of the message and the report comes together with the response',
    [('msc_server/server/cmpp_submit.go', """	mockRandPrecessTime()
""", """	arrival := time.Now()
	mockRandPrecessTime()
"""), ('msc_server/server/cmpp_submit.go', """		mockSendCmppReport(sc, mt, rsp.MsgId())
""", """		mockSendCmppReport(sc, mt, rsp.MsgId(), arrival)
"""), ('msc_server/server/cmpp_submit.go', """func mockSendCmppReport(sc *session, sub *cmpp.Submit, msgId uint64) {
""", """func mockSendCmppReport(sc *session, sub *cmpp.Submit, msgId uint64, arrival time.Time) {
"""), ('msc_server/server/cmpp_submit.go', """	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
""", """	if ms > 0 {
		time.Sleep(time.Until(arrival.Add(time.Duration(ms) * time.Millisecond)))
	}
""")],
'''
func main() {
	start("cmpp")
	c := logged("cmpp")
	t := time.Now()
	p := c.serve(5 * time.Second)
	if p == nil {
		fail("submit is not answered")
	}
	if d := time.Since(t); d < 1490*time.Millisecond {
		fail("the response comes after %v", d)
	}
	t = time.Now()
	if c.want(wire.Report, 5*time.Second) == nil {
		fail("no report")
	}
	if d := time.Since(t); d < 1400*time.Millisecond {
		fail("the report comes %v after the response, not 1.5s", d)
	}
	ok()
}
''', imports=('time', 'github.com/hrygo/gosms/msc_server/zzdemo/wire'), conf='MINMS=1500\nMAXMS=1501\nREPORTMS=1500')

bug('p25-push-switch-looked-up-each-minute', 'P25',
    'upstream simulation is switched on or off while sessions are logged in',
    'it goes on for up to a minute as if nothing had changed',
    [('msc_server/server/on_tick.go', """	open := msc.ConfigYml.GetBool("Server.Mock.Delivery.Enable")
	if !open {
		return
	}
""", """	s.Lock()
	if time.Since(s.lookedUp) > time.Minute {
		s.lookedUp = time.Now()
		s.upstream = msc.ConfigYml.GetBool("Server.Mock.Delivery.Enable")
	}
	open := s.upstream
	s.Unlock()
	if !open {
		return
	}
"""), ('msc_server/server/server.go', """	activeSessions int             // 已存储的会话数，活跃会话数
""", """	activeSessions int             // 已存储的会话数，活跃会话数
	upstream       bool            // 是否模拟上行消息
	lookedUp       time.Time       // 上次读取该开关的时间
""")],
CONFLIB + '''
func main() {
	start("cmpp")
	c := logged("cmpp")
	if c.want(wire.Deliver, 4*time.Second) == nil {
		fail("nothing is pushed although the simulation is on")
	}
	edit("Enable: true ", "Enable: false")
	time.Sleep(time.Second)
	for c.get(200*time.Millisecond) != nil {
	}
	if c.want(wire.Deliver, 4*time.Second) != nil {
		fail("pushed although the simulation is off")
	}
	edit("Enable: false\\n      Rate", "Enable: true \\n      Rate")
	if c.want(wire.Deliver, 5*time.Second) == nil {
		fail("nothing is pushed although the simulation is on again")
	}
	ok()
}
''', imports=('os', 'strings', 'time', 'github.com/hrygo/gosms/msc_server/zzdemo/wire'), conf='DLV="true "')
