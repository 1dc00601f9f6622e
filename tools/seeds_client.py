C = 'msc_client/'
W = 'github.com/hrygo/gosms/smc_client/zzdemo/wire'
SMS = 'github.com/hrygo/gosms/smc_client'
SES = 'github.com/hrygo/gosms/smc_client/session'

cbug('p15-report-overtakes-response', 'P15',
    'a response and the report for the same message that arrive right behind one another, with the report handled first',
    'frames of one connection are handled concurrently: a report that is handled before the response carrying its id is lost',
    [(C+'session/session.go', '					s.onTraffic(cmd, seq, buff)', '					go s.onTraffic(cmd, seq, buff)')],
'''
func main() {
	load()
	g := serve("cmpp")
	g.onSubmit = func(c *gconn, p *wire.PDU, q wire.Seq) {
		id := c.id()
		c.put(wire.SubmitRspPDU("cmpp", true, q, id, 0), wire.ReportPDU("cmpp", true, c.seq(), id, "95566", p.Dests[0], "DELIVRD"))
	}
	var recs []*session.Result
	for i := 0; i < 1500; i++ {
		id := sms.Send("hello", phones["cmpp"])
		for _, r := range sms.Query(id) {
			recs = append(recs, r.(*session.Result))
		}
		time.Sleep(2 * time.Millisecond)
	}
	if len(recs) < 100 {
		fail("only %d messages sent", len(recs))
	}
	time.Sleep(time.Second)
	for i, r := range recs {
		if r.Report != "DELIVRD" {
			fail("message %d: response id %q, report %q", i, r.MsgId, r.Report)
		}
	}
	ok()
}
''', imports=('time', W, SMS, SES))

cbug('p15-smgp-id-without-gateway', 'P15',
    'two messages whose SMGP message ids differ only in the gateway code (two gateways behind one address)',
    'reports are matched by a part of the message id: the status of one message ends up in the record of another',
    [(C+'session/on_traffic_smgp.go', 'MsgIdResultCacheMap.Store(mtr.MsgId, mtr)', 'MsgIdResultCacheMap.Store(mtr.MsgId[6:], mtr)'),
     (C+'session/on_traffic_smgp.go', 'key := hex.EncodeToString(rpt.Id())', 'key := hex.EncodeToString(rpt.Id())[6:] // 时间与序列号')],
'''
func main() {
	load()
	g := serve("smgp")
	n := 0
	ids := []string{"01020311180930000001", "01020411180930000001"}
	done := make(chan bool)
	g.onSubmit = func(c *gconn, p *wire.PDU, q wire.Seq) {
		c.put(wire.SubmitRspPDU("smgp", true, q, ids[n], 0))
		n++
		if n == 2 {
			time.Sleep(300 * time.Millisecond)
			c.put(wire.ReportPDU("smgp", true, c.seq(), ids[0], "95566", p.Dests[0], "UNDELIV"))
			close(done)
		}
	}
	a := sms.Query(sms.Send("one", phones["smgp"]))
	time.Sleep(300 * time.Millisecond)
	b := sms.Query(sms.Send("two", phones["smgp"]))
	<-done
	time.Sleep(500 * time.Millisecond)
	if len(a) != 1 || len(b) != 1 {
		fail("not sent")
	}
	ra, rb := a[0].(*session.Result), b[0].(*session.Result)
	if ra.Report != "UNDELIV" || rb.Report != "" {
		fail("the report for %s: record of %s has %q, record of %s has %q", ids[0], ra.MsgId, ra.Report, rb.MsgId, rb.Report)
	}
	ok()
}
''', imports=('time', W, SMS, SES))

cbug('p16-late-report-unacknowledged', 'P16',
    'a delivery report for a message whose record has already expired, or that another process sent',
    'such a report is never acknowledged, so the gateway repeats it',
    [(C+'session/on_traffic_smgp.go', '''		resp := dly.ToResponse(0)
		err = s.write(resp.Encode())
		log.Debug(send, resp.Log()...)
		if err != nil {
			log.Error(err.Error())
			s.Close()
		}
		// 是状态报告
		if dly.IsReport() {
			rpt := dly.Report()
			if rpt == nil {
				return
			}
			key := hex.EncodeToString(rpt.Id())
			val, ok := MsgIdResultCacheMap.Load(key)
			if ok {
				mtr := val.(*Result)
				mtr.Report = rpt.Stat()
				mtr.ReportTime = time.Now()
			}
		}
''', '''		// 是状态报告
		if dly.IsReport() {
			rpt := dly.Report()
			if rpt == nil {
				return
			}
			key := hex.EncodeToString(rpt.Id())
			val, ok := MsgIdResultCacheMap.Load(key)
			if !ok {
				return
			}
			mtr := val.(*Result)
			mtr.Report = rpt.Stat()
			mtr.ReportTime = time.Now()
		}
		resp := dly.ToResponse(0)
		err = s.write(resp.Encode())
		log.Debug(send, resp.Log()...)
		if err != nil {
			log.Error(err.Error())
			s.Close()
		}
''')],
'''
func main() {
	load()
	g := serve("smgp")
	acked := make(chan string, 10)
	g.onOther = func(c *gconn, p *wire.PDU, q wire.Seq) {
		if p.Kind == wire.DeliverRp || p.Kind == wire.ReportRsp {
			acked <- p.Seq
		}
	}
	sms.Send("hello", phones["smgp"])
	time.Sleep(500 * time.Millisecond)
	q := g.conns[0].seq()
	g.conns[0].put(wire.ReportPDU("smgp", true, q, "01020399180930000001", "95566", phones["smgp"], "DELIVRD"))
	select {
	case s := <-acked:
		if s != q.Text("smgp") {
			fail("acknowledged with sequence %s, want %s", s, q.Text("smgp"))
		}
	case <-time.After(8 * time.Second):
		fail("the report is not acknowledged")
	}
	ok()
}
''')

cbug('p17-silent-session-left-open', 'P17',
    'a gateway that stops answering heartbeats while its connections stay open, and no traffic for about 100 seconds',
    'sessions found dead are dropped from the list but their connections stay open, so more connections than configured accumulate',
    [(C+'session_factory.go', '''		} else { // 去除关闭无效会话
			sc.Close()
		}''', '''		} else { // 去除无效会话
			log.Warnf("session %p removed.", sc)
		}''')],
'''
func main() {
	load()
	g := serve("cmpp")
	g.noBeat = true
	sms.Send("hello", phones["cmpp"])
	var since time.Time
	long := until(130*time.Second, func() bool {
		if open, _, _ := g.count(); open <= 2 {
			since = time.Now()
		}
		return time.Since(since) > 2*time.Second
	})
	open, _, total := g.count()
	if long {
		fail("%d connections open for seconds, configured are 2 (%d opened in all)", open, total)
	}
	if total < 3 {
		fail("dead connections were not replaced: %d open, %d in all", open, total)
	}
	ok()
}
''', imports=('time', SMS), conf='LIMIT=200')

cbug('p18-batch-buffer-reused', 'P18',
    'more than 64 records that expire in the same check, and a handler that processes a batch after returning',
    'the slice handed to the asynchronous handler is overwritten with the next records: some are journaled twice and others never',
    [(C+'session_factory.go', '''			asyncHandler(batch)
			batch = make([]any, 0, 128)
''', '''			asyncHandler(batch)
			batch = batch[:0]
''')],
'''
func main() {
	load()
	serve("smgp")
	var mu sync.Mutex
	seen := map[uint64]int{}
	sms.StartCacheExpireTicker(func(rs []any) {
		go func() {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			for _, r := range rs {
				seen[r.(*session.Result).SequenceId]++
			}
		}()
	})
	sent := map[uint64]bool{}
	for i := 0; i < 400; i++ {
		for _, r := range sms.Query(sms.Send("hello", phones["smgp"])) {
			sent[r.(*session.Result).SequenceId] = true
		}
		time.Sleep(2 * time.Millisecond)
	}
	if len(sent) < 200 {
		fail("only %d messages sent", len(sent))
	}
	until(25*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(seen) == len(sent) })
	time.Sleep(2 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	for s := range sent {
		if seen[s] != 1 {
			fail("record %d was journaled %d times (%d of %d records seen)", s, seen[s], len(seen), len(sent))
		}
	}
	ok()
}
''', imports=('sync', 'time', SMS, SES), conf='EXPIRE=4s\nCHECK=5s')

cbug('p19-late-chinese-lost', 'P19',
    'a long message whose first 160 bytes are ASCII and that contains Chinese text only later',
    'the encoding is chosen from the beginning of the text: the later characters arrive as raw bytes declared as ASCII',
    [('utils/utils.go', '	all7bits := len(content) == len([]rune(content))', '''	if len(content) > 160 {
		// 只需检查一条短信的长度
		content = content[:160]
	}
	all7bits := len(content) == len([]rune(content))''')],
'''
func main() {
	load()
	g := serve("cmpp")
	got := make(chan *wire.PDU, 20)
	g.onSubmit = func(c *gconn, p *wire.PDU, q wire.Seq) {
		c.put(wire.SubmitRspPDU("cmpp", true, q, c.id(), 0))
		got <- p
	}
	text := strings.Repeat("abcdefghij", 17) + "你好世界"
	sms.Send(text, phones["cmpp"])
	var u []uint16
	for end := time.After(3 * time.Second); ; {
		select {
		case p := <-got:
			if p.Fmt != 8 {
				fail("a part is sent in format %d", p.Fmt)
			}
			b := p.Content[6:]
			for i := 0; i+1 < len(b); i += 2 {
				u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
			}
			if p.PkNum == p.PkTotal {
				if s := string(utf16.Decode(u)); s != text {
					fail("text arrives as %q", s)
				}
				ok()
			}
		case <-end:
			fail("the message did not arrive")
		}
	}
}
''', imports=('strings', 'time', 'unicode/utf16', W, SMS))

cbug('p20-decoded-in-place', 'P20',
    'a credential file that becomes malformed after some of its fields were changed, seen by a reload; or a lookup during a reload',
    'a reload decodes into the entry in use: a file that is malformed further down alters the client that was loaded before',
    [('auth/yaml_store.go', '	cli := &Client{}\n', '''	// 重新加载时更新已有数据
	cli := y.Cache[id]
	if cli == nil {
		cli = &Client{}
	}
''')],
'''
func main() {
	load()
	f := sms.ConfigYml.BasePath() + "config/store/cmpp_123456.yaml"
	b, err := os.ReadFile(f)
	if err != nil {
		fail("%v", err)
	}
	old := *auth.Cache.FindByCid("cmpp", "123456")
	bad := strings.Replace(string(b), "shared secret", "another", 1) + "throughput: many\\n"
	bad = strings.Replace(bad, "throughput: 1000\\n", "", 1)
	if err := os.WriteFile(f, []byte(bad), 0o644); err != nil {
		fail("%v", err)
	}
	time.Sleep(3500 * time.Millisecond)
	c := auth.Cache.FindByCid("cmpp", "123456")
	if c == nil || *c != old {
		fail("a malformed file altered the client: %+v", c)
	}
	ok()
}
''', imports=('os', 'strings', 'time', 'github.com/hrygo/gosms/auth', SMS), conf='RELOAD=1s')

cbug('p21-shutdown-does-not-wait', 'P21',
    'a termination signal while a shutdown hook needs some time',
    'hooks run in the background: the process is told to stop before they are complete',
    [('event_manager/event_manage.go', '				m.Call(keyName)', '				go m.Call(keyName)')],
'''
func main() {
	var n int32
	for i := 0; i < 5; i++ {
		event_manager.RegisterShutdownHooker(fmt.Sprint("hook", i), func(args ...any) {
			time.Sleep(200 * time.Millisecond)
			atomic.AddInt32(&n, 1)
		})
	}
	time.Sleep(300 * time.Millisecond)
	_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
	select {
	case <-sms.StatChan():
	case <-time.After(20 * time.Second):
		fail("never told to stop")
	}
	if v := atomic.LoadInt32(&n); v != 5 {
		fail("told to stop when %d of 5 hooks were complete", v)
	}
	ok()
}
''', imports=('fmt', 'os', 'sync/atomic', 'syscall', 'time', 'github.com/hrygo/gosms/event_manager', SMS))

cbug('p12-sequence-spills-into-worker', 'P12',
    'an odd worker number and more than 512 identifiers in the same second',
    'the sequence has one bit too many and runs into the worker field: identifiers repeat and carry a wrong worker number',
    [('utils/snowflake32/snowflake32.go', '''	sequenceMask    = int32(0x01ff)                              // 最大值为9个1''', '''	sequenceMask    = int32(0x03ff)                              // 最大值为10个1''')],
'''
func main() {
	g := snowflake32.NewSnowflake(1, 5)
	seen := map[int32]bool{}
	for i := 0; i < 1500; i++ {
		v := g.NextVal()
		p := snowflake32.Parse(v)
		if seen[v] || p.Worker() != 5 || p.Datacenter() != 1 {
			fail("value %08x after %d calls: seen before %v, worker %d", v, i, seen[v], p.Worker())
		}
		seen[v] = true
	}
	ok()
}
''', imports=('github.com/hrygo/gosms/utils/snowflake32',))

cbug('p23-rest-of-call-dropped', 'P23',
    'one call to numbers of several operators while one of the operators is over its limit',
    'when one number is over the limit of its operator, the numbers after it are dropped too, also those of other operators',
    [(C+'api.go', """			// 无可用链接或被限速，当前消息丢弃
			continue""", """			// 无可用链接或被限速，停止发送
			break""")],
'''
func main() {
	load()
	serve("cmpp")
	serve("sgip")
	sms.Send("hello", phones["cmpp"])
	sms.Send("hello", phones["sgip"])
	time.Sleep(3 * time.Second)
	var l []string
	for i := 0; i < 8; i++ {
		l = append(l, fmt.Sprintf("138000011%02d", i))
	}
	l = append(l, "13000002222", "13000002223")
	n := map[string]bool{}
	for _, x := range sms.Query(sms.SendN("hello", l)) {
		n[x.(*session.Result).Phone] = true
	}
	if n["13800001107"] {
		fail("the limit of the first operator is not kept")
	}
	if !n["13000002222"] || !n["13000002223"] {
		fail("the numbers of the second operator are dropped: %v", n)
	}
	ok()
}
''', imports=('fmt', 'time', SMS, 'github.com/hrygo/gosms/smc_client/session'), conf='WINDOW=5\nTPS=2')

cbug('p23-spread-by-lifetime', 'P23',
    'steady traffic over a pool of two connections, one of which is replaced after some time',
    'connections are ordered by what they carried in their whole life, so a fresh connection gets all messages until it has caught up',
    [(C+'session/session.go', 'return 1e10 - s.periodCounter', 'return 1e10 - s.counter')],
'''
func main() {
	load()
	g := serve("cmpp")
	var mu sync.Mutex
	n := map[*gconn]int{}
	g.onSubmit = func(c *gconn, p *wire.PDU, q wire.Seq) {
		mu.Lock()
		n[c]++
		mu.Unlock()
		c.put(wire.SubmitRspPDU("cmpp", true, q, c.id(), 0))
	}
	go func() {
		for i := 0; ; i++ {
			sms.Send("hello", fmt.Sprintf("138%08d", i%1000))
			time.Sleep(4 * time.Millisecond)
		}
	}()
	if !until(10*time.Second, func() bool { o, _, _ := g.count(); return o == 2 }) {
		fail("the pool does not get complete")
	}
	time.Sleep(6 * time.Second)
	g.Lock()
	g.conns[0].Close()
	g.Unlock()
	if !until(10*time.Second, func() bool { o, _, t := g.count(); return o == 2 && t >= 3 }) {
		fail("the connection is not replaced")
	}
	time.Sleep(time.Second)
	mu.Lock()
	n = map[*gconn]int{}
	mu.Unlock()
	time.Sleep(2500 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	most, all := 0, 0
	for _, k := range n {
		all += k
		if k > most {
			most = k
		}
	}
	if all < 50 {
		fail("only %d messages arrived", all)
	}
	if most*100 > all*90 {
		fail("one of the two connections carries %d of %d messages", most, all)
	}
	ok()
}
''', imports=('fmt', 'sync', 'time', 'github.com/hrygo/gosms/smc_client/zzdemo/wire', SMS), conf='TICK=100ms')

cbug('p26-own-heartbeat-silences-answers', 'P26',
    'an SMGP session both sides of which find idle: the client has sent a heartbeat of its own before the gateway probes it',
    'once it has sent a heartbeat, the client no longer answers those of the gateway, which ends the idle session after three probes',
    [(C+'session/on_traffic_smgp.go', '''		act := &smgp.ActiveTest{}
		_ = act.Decode(seq, buff)
		log.Info(receive, act.Log()...)
		resp :=''', '''		act := &smgp.ActiveTest{}
		if err := act.Decode(seq, buff); err != nil || s.testTime.After(s.createTime) {
			// 心跳由本端发起
			return
		}
		log.Info(receive, act.Log()...)
		resp :=''')],
'''
func main() {
	load()
	g := serve("smgp")
	answered := make(chan bool, 10)
	g.onOther = func(c *gconn, p *wire.PDU, q wire.Seq) {
		if p.Kind == wire.ActiveRsp {
			answered <- true
		}
	}
	sms.Send("hello", phones["smgp"])
	if until(10*time.Second, func() bool { n, _, _ := g.count(); return n == 2 }) == false {
		fail("no pool of two connections")
	}
	probe := func(when string) {
		g.Lock()
		l := append([]*gconn(nil), g.conns...)
		g.Unlock()
		for _, c := range l {
			c.put(wire.Simple("smgp", wire.Active, c.seq()))
			select {
			case <-answered:
			case <-time.After(5 * time.Second):
				fail("a heartbeat of the gateway %s is not answered", when)
			}
		}
	}
	probe("at the beginning")
	time.Sleep(75 * time.Second)
	probe("after an idle minute")
	ok()
}
''', imports=('time', 'github.com/hrygo/gosms/smc_client/zzdemo/wire', SMS), conf='LIMIT=200')

cbug('p26-gives-up-while-the-gateway-is-full', 'P26',
    'a gateway that admits exactly the configured number of sessions and still holds one whose host fell silent, or an outage of half a minute',
    'after twenty attempts in a row that failed the client never connects again and its pool stays incomplete',
    [(C+'session_factory.go', '''	regex      *regexp.Regexp
''', '''	regex      *regexp.Regexp
	failed     int // 连续失败次数
'''), (C+'session_factory.go', '''func (f *SessionFactory) newConnect() {
	// 立即初始化一个连接
''', '''func (f *SessionFactory) newConnect() {
	// 网关不可用时不再尝试
	if f.failed >= 20 {
		return
	}
	f.failed++
'''), (C+'session_factory.go', '''			f.sessions = append(f.sessions, sc)
		}
	} else {
		log.Error(err.Error())
	}
}

func (f *SessionFactory) Reg''', '''			f.sessions = append(f.sessions, sc)
			f.failed = 0
		}
	} else {
		log.Error(err.Error())
	}
}

func (f *SessionFactory) Reg''')],
'''
func main() {
	load()
	g := serve("cmpp")
	sms.Send("hello", phones["cmpp"])
	pool := func(g *gw) bool { return until(20*time.Second, func() bool { n, _, _ := g.count(); return n == 2 }) }
	if !pool(g) {
		fail("no pool of two connections")
	}
	g.ln.Close()
	for _, c := range g.conns {
		c.Close()
	}
	time.Sleep(45 * time.Second)
	g = serve("cmpp")
	if !pool(g) {
		n, _, _ := g.count()
		fail("%d of 2 connections 20 s after the end of an outage of 45 s", n)
	}
	ok()
}
''', imports=('time', SMS), conf='LIMIT=150')

LEAK = '''
func calm(want int) (n int) {
	until(15*time.Second, func() bool { n = runtime.NumGoroutine(); return n <= want })
	return
}
'''

cbug('p27-login-abandoned', 'P27',
    'a gateway that accepts connections and leaves the login unanswered for longer than five seconds',
    'the login goes on in a goroutine of its own which can never deliver its outcome once nobody waits for it: one goroutine is lost with every such attempt',
    [(C+'session/session.go', '''	err := sc.login()
''', '''	logged := make(chan error)
	go func() {
		logged <- sc.login()
	}()
	var err error
	select {
	case err = <-logged:
	case <-time.After(5 * time.Second):
		err = errors.New("login timeout")
	}
''')],
LEAK + '''
func main() {
	load()
	g := serve("cmpp")
	sms.Send("hello", phones["cmpp"])
	pool := func(g *gw) bool { return until(30*time.Second, func() bool { n, _, _ := g.count(); return n == 2 }) }
	if !pool(g) {
		fail("no pool of two connections")
	}
	time.Sleep(2 * time.Second)
	before := runtime.NumGoroutine()
	g.ln.Close()
	ln, err := net.Listen("tcp", "127.0.0.1:"+os.Getenv("P1"))
	if err != nil {
		fmt.Println("DEMO: cannot listen:", err)
		os.Exit(3)
	}
	for _, c := range g.conns {
		c.Close()
	}
	for i := 0; i < 4; i++ {
		c, err := ln.Accept()
		if err != nil {
			fail("accept: %v", err)
		}
		var b [1000]byte
		for err == nil {
			_, err = c.Read(b[:]) // never answered
		}
		c.Close()
	}
	ln.Close()
	g = serve("cmpp")
	if !pool(g) {
		fail("no pool of two connections afterwards")
	}
	if n := calm(before); n > before {
		fail("%d goroutines after four unanswered logins, %d before", n, before)
	}
	ok()
}
''', imports=('fmt', 'net', 'os', 'runtime', 'time', SMS), conf='LIMIT=150')

cbug('p27-queue-left-open', 'P27',
    'connections that end in the middle of a frame, or frames with an impossible length',
    'received frames are handed to a goroutine per session which ends only when the connection ends between two frames; otherwise it stays for good',
    [(C+'session/session.go', '''func (s *Session) startReceiver() {
	go func() {
''', '''func (s *Session) startReceiver() {
	// 报文的处理不应阻塞接收
	type frame struct {
		cmd, seq uint32
		buff     []byte
	}
	frames := make(chan frame, 16)
	go func() {
		for f := range frames {
			s.onTraffic(f.cmd, f.seq, f.buff)
		}
	}()
	go func() {
'''), (C+'session/session.go', '''				log.Warnf("[%s] Receive cancel signal, Receiver exit!", s.serverName)
				return
''', '''				log.Warnf("[%s] Receive cancel signal, Receiver exit!", s.serverName)
				close(frames)
				return
'''), (C+'session/session.go', '''						log.Warnf("[%s] Session status incorrect, Receiver exit!", s.serverName)
						return
''', '''						log.Warnf("[%s] Session status incorrect, Receiver exit!", s.serverName)
						close(frames)
						return
'''), (C+'session/session.go', '''						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
						s.Close()
''', '''						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
						s.Close()
						close(frames)
'''), (C+'session/session.go', '''					s.onTraffic(cmd, seq, buff)
				}
''', '''					frames <- frame{cmd, seq, buff}
				}
''')],
LEAK + '''
func main() {
	load()
	g := serve("smgp")
	sms.Send("hello", phones["smgp"])
	pool := func() bool { return until(30*time.Second, func() bool { n, _, _ := g.count(); return n == 2 }) }
	if !pool() {
		fail("no pool of two connections")
	}
	time.Sleep(2 * time.Second)
	before := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		g.Lock()
		l := append([]*gconn(nil), g.conns...)
		g.conns = nil
		g.Unlock()
		for _, c := range l {
			c.put(wire.Simple("smgp", wire.Active, c.seq()), []byte{0, 0, 0, 40, 0, 0, 0, 3, 0, 0, 0, 9, 1, 2, 3})
			c.Close()
		}
		time.Sleep(time.Second)
		if !pool() {
			fail("no pool of two connections after %d losses", i+1)
		}
		time.Sleep(time.Second)
	}
	if n := calm(before); n > before {
		fail("%d goroutines after six connections were cut within a frame, %d before", n, before)
	}
	ok()
}
''', imports=('runtime', 'time', 'github.com/hrygo/gosms/smc_client/zzdemo/wire', SMS), conf='LIMIT=150')
