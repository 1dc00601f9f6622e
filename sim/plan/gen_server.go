package plan

import (
	"fmt"
	"sort"
	"strings"
)

// R is a splitmix64 stream; the generator uses nothing else random.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *R) Range(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + int64(r.U64()%uint64(b-a+1))
}
func (r *R) P(p float64) bool       { return float64(r.U64()>>11)/(1<<53) < p }
func (r *R) I(l ...int) int         { return l[r.N(len(l))] }
func (r *R) I64(l ...int64) int64   { return l[r.N(len(l))] }
func (r *R) S(l ...string) string   { return l[r.N(len(l))] }
func (r *R) F(l ...float64) float64 { return l[r.N(len(l))] }
func (r *R) fork(k string) *R {
	h := r.U64()
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 1099511628211
	}
	return NewR(h)
}

// sched draws a scheduling regime.
func (r *R) sched(faults bool) Sched {
	s := Sched{Seed: r.U64() >> 1, AppSeed: r.U64() >> 1, NetSeed: r.U64() >> 1, MaxPreempt: -1, StepNs: r.I64(20, 100, 400), NumCPU: 128, MaxSteps: 40_000_000}
	s.Mode = r.I(0, 0, 0, 1, 1, 2)
	s.Preempt = r.I(15, 40, 40, 120, 400, 2000)
	s.Changes = r.I(3, 10, 50, 200)
	if s.Mode == 2 {
		s.Preempt = r.I(0, 0, 200)
	}
	if faults && r.P(0.4) {
		s.StallProb = r.F(0.0005, 0.003, 0.02)
		s.StallMaxUs = r.I64(200, 5000, 60000, 400000)
	}
	return s
}

func (r *R) link(cut bool) Link {
	l := Link{}
	switch r.N(4) {
	case 0:
		l.LatMinUs, l.LatMaxUs = 10, 60
	case 1:
		l.LatMinUs, l.LatMaxUs = 200, 2000
	case 2:
		l.LatMinUs, l.LatMaxUs = 1000, 40000
	case 3:
		l.LatMinUs, l.LatMaxUs = 20, 20000
	}
	if cut {
		l.Seg = r.I(0, 0, 1, 3, 7, 13, 40, 200)
		l.CoalUs = r.I64(0, 0, 0, 500, 5000, 40000)
		l.ShortRead = r.F(0, 0, 0.2, 0.7)
	}
	return l
}

var protos = []string{"cmpp", "smgp", "sgip"}

func (r *R) cred(proto string, n int) Cred {
	c := Cred{Proto: proto, Secret: fmt.Sprintf("Sec%dret%d", r.N(900)+10, n), MaxConns: 8, Window: 16, Tput: 1000, Display: "1069" + fmt.Sprint(1000+r.N(9000))}
	switch proto {
	case "cmpp":
		c.ID = fmt.Sprintf("c%05d", 10000+n*17+r.N(7))
		c.Ver = r.I(0x20, 0x30)
	case "smgp":
		c.ID = fmt.Sprintf("s%07d", 1000000+n*17+r.N(7))
		if r.P(0.3) { // shorter than its field
			c.ID = fmt.Sprintf("s%d", 100+n*17+r.N(7))
		}
		c.Ver = 0x30
	case "sgip":
		c.ID = fmt.Sprintf("g%07d", 2000000+n*17+r.N(7))
		if r.P(0.3) {
			c.ID = fmt.Sprintf("corp-gateway%04d", n*17+r.N(7))
		}
		c.Ver = 0x12
		c.Secret = fmt.Sprintf("pw%dret%d", r.N(900)+10, n)
	}
	c.Name = c.ID
	return c
}

type sb struct {
	*R
	s  *Spec
	sv *Server
}

func (b *sb) gws(cap int, ps ...string) {
	for _, p := range ps {
		b.sv.GWs = append(b.sv.GWs, GW{Proto: p, Cap: cap, Multi: true})
	}
}

func (b *sb) addCred(proto string, f func(*Cred)) int {
	c := b.cred(proto, len(b.sv.Creds))
	if f != nil {
		f(&c)
	}
	b.sv.Creds = append(b.sv.Creds, c)
	return len(b.sv.Creds) - 1
}

func (b *sb) probes() {
	for _, g := range b.sv.GWs {
		b.addCred(g.Proto, func(c *Cred) { c.Role = "probe"; c.MaxConns = 3 })
	}
}

func (b *sb) peer(cred int, login string, ops ...Op) *Peer {
	b.sv.Peers = append(b.sv.Peers, Peer{ID: len(b.sv.Peers) + 1, Cred: cred, Login: login, Ops: ops, StartUs: b.Range(0, 30_000)})
	return &b.sv.Peers[len(b.sv.Peers)-1]
}

func (b *sb) somePeers() []string {
	switch b.N(4) {
	case 0:
		return protos
	case 1:
		return []string{protos[b.N(3)], protos[b.N(3)]}[:1]
	case 2:
		i := b.N(3)
		return []string{protos[i], protos[(i+1)%3]}
	}
	return protos
}

const msU = 1000
const secU = 1000000

func op(k string, a, b int64) Op  { return Op{K: k, A: a, B: b} }
func ops(k, s string) Op          { return Op{K: k, S: s} }
func (b *sb) nap(lo, hi int64) Op { return op("sleep", b.Range(lo, hi), 0) }
func (b *sb) letters(set string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(set[b.N(len(set))])
	}
	return s
}

// Server properties generated here.
var ServerProps = []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P22", "P24", "P25"}

func genServer(prop string, seed uint64, r *R) *Spec {
	s := &Spec{Prop: prop, Seed: seed, Scenario: "server", Server: &Server{}}
	sv := s.Server
	b := &sb{r, s, sv}
	faults := seed%4 != 0 // every fourth run is free of scheduling and link faults
	s.Sched = b.sched(faults)
	sv.Loops = b.I(1, 1, 2, 3)
	sv.MinResp, sv.MaxResp = 0, b.I64(1, 3, 20, 100)
	if sv.MaxResp > 3 && b.P(0.5) {
		sv.MinResp = sv.MaxResp / 2
	}
	sv.Report = b.I64(0, 5, 5, 50)
	sv.Success = 1
	sv.TickMs, sv.ForceMs = 10_000, 300_000
	sv.QuietS = 5
	lk := func() Link { return b.link(faults && b.P(0.6)) }
	switch prop {
	case "P01":
		b.genP01(lk)
	case "P02":
		b.genP02(lk)
	case "P03":
		b.genP03(lk)
	case "P04":
		b.genP04(lk)
	case "P05":
		b.genP05()
	case "P06":
		b.genP06(lk)
	case "P07":
		b.genP07()
	case "P08":
		b.genP08(lk)
	case "P09":
		b.genP09(lk)
	case "P10":
		b.genP10(lk)
	case "P11":
		b.genP11(lk)
	case "P13":
		b.genP13(lk)
	case "P14":
		b.genP14()
	case "P22":
		b.genP22(lk)
	case "P24":
		b.genP24(lk)
	case "P25":
		b.genP25(lk)
	}
	if sv.Contents == nil {
		sv.Contents, sv.MORate = []string{"0010_,_hello world", "0011_,_TD"}, 0.5
	}
	if sv.MinResp > sv.MaxResp {
		sv.MinResp = sv.MaxResp
	}
	cfg := map[string]any{
		"AppDebug": true, "AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store",
		"Server.TickDuration": fmt.Sprintf("%dms", sv.TickMs), "Server.ForceCloseConnTime": fmt.Sprintf("%dms", sv.ForceMs),
		"Server.Mock.SuccessRate": sv.Success, "Server.Mock.MinSubmitRespMs": sv.MinResp, "Server.Mock.MaxSubmitRespMs": sv.MaxResp, "Server.Mock.FixReportRespMs": sv.Report,
		"Server.Mock.Delivery.Enable": sv.MO, "Server.Mock.Delivery.Rate": sv.MORate, "Server.Mock.Delivery.Contents": MOTexts(sv.Contents),
		"Logs.CounterDB.LogName": "logs/counter/db.json",
	}
	for i, g := range sv.GWs {
		cfg["Server."+g.Proto+".Port"] = 10000 + i*10
		cfg["Server."+g.Proto+".Multicore"] = g.Multi
		cfg["Server."+g.Proto+".MaxSessions"] = g.Cap
	}
	if sv.ReloadMs > 0 {
		cfg["AuthClient.ReloadTicker"] = fmt.Sprintf("%dms", sv.ReloadMs)
	}
	if sv.Conf != nil {
		for k, v := range sv.Conf.Keys() {
			cfg[k] = v
		}
	}
	seqKeys(cfg, 1, 17)
	s.Config = map[string]map[string]any{"msc_server": cfg, "msc_client": clientDefaults()}
	return s
}

func seqKeys(cfg map[string]any, dc, worker int) {
	cfg["Snowflake.B64.DC"], cfg["Snowflake.B64.Worker"] = dc, worker
	cfg["Snowflake.B32.DC"], cfg["Snowflake.B32.Worker"] = dc, worker%8
	cfg["Snowflake.BCD"] = "010203"
	cfg["Snowflake.SGIP"] = 305080000
}

func clientDefaults() map[string]any {
	c := map[string]any{"AppDebug": true, "PoolSize": 100, "Cache.expire-time": "10s", "Cache.expire-check-duration": "1s",
		"AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store"}
	seqKeys(c, 1, 17)
	return c
}

var badLogins = []string{"secret", "prefix", "nosecret", "case", "othersecret", "ts", "zeroauth", "digest", "digest", "unknown", "emptyid", "idcase", "ver", "ver0", "name", "verandsecret"}

func (b *sb) genP01(lk func() Link) {
	b.gws(100, protos...)
	var cs []int
	for _, p := range protos {
		for i := 0; i < 1+b.N(2); i++ {
			cs = append(cs, b.addCred(p, func(c *Cred) { c.MaxConns = b.I(50, 50, 2) }))
		}
	}
	b.probes()
	if b.P(0.2) { // nobody can log in under an entry that names somebody else
		c := b.addCred("sgip", func(c *Cred) { c.Name, c.Role = "n"+c.ID[1:], "alias" })
		p := b.peer(c, b.S("alias", "alias", "aliasname"), b.nap(0, 200*msU), ops("burst", b.letters("sat", 1+b.N(3))), op("sleep", 6*secU, 0))
		p.Link = lk()
	}
	for i, n := 0, 6+b.N(10); i < n; i++ {
		c := cs[b.N(len(cs))]
		var p *Peer
		after := []Op{b.nap(0, 200*msU), ops("burst", b.letters("sat", 1+b.N(3))), op("sleep", 6*secU, 0)}
		switch b.N(8) {
		case 0: // service first
			p = b.peer(c, "none", ops("burst", b.letters("sat", 1+b.N(3))), op("awaiteof", 8000, 0))
		case 1: // pipelined behind a bad login
			p = b.peer(c, b.S(badLogins...)+"+"+b.S("s", "s+s", "active", "term"), after...)
		case 2: // pipelined behind a good login
			p = b.peer(c, "ok+"+b.S("s", "a", "t", "s+s"), op("sleep", 2*secU, 0))
		case 3: // correct
			p = b.peer(c, b.S("ok", "ok", "minor"), ops("burst", b.letters("sa", 1+b.N(4))), op("await", 5000, 0), b.nap(0, secU))
		case 4: // second login on a live session
			p = b.peer(c, "ok", ops("burst", "s"), op("await", 3000, 0), Op{K: "login", A: b.Range(0, 8*secU), S: b.S(append(badLogins, "ok")...)}, ops("burst", "ss"), op("sleep", 2*secU, 0))
		default:
			p = b.peer(c, b.S(badLogins...), after...)
		}
		p.Link = lk()
	}
}

// hasty connections end while their login is being handled.
func (b *sb) hasty() (o []Op) {
	for k := 1 + b.N(3); k > 0; k-- {
		o = append(o, Op{K: "login", A: b.Range(0, b.I64(0, 20, 200, 2000)), S: b.S("ok", "ok", "ok", "secret")}, op(b.S("close", "abort", "abort"), 0, 0))
		o = append(o, Op{K: "reconnect", A: b.Range(0, 20*msU), S: "none"})
	}
	o[len(o)-1].S = b.S("none", "ok")
	return
}

func (b *sb) genP02(lk func() Link) {
	ps := b.somePeers()
	cp := b.I(1, 2, 3, 4, 6)
	b.gws(cp, ps...)
	b.sv.NoProbe = true
	b.sv.MonUs = b.I64(200, 2000, 20000)
	b.sv.Loops = b.I(1, 2, 3, 4)
	b.sv.TickMs, b.sv.ForceMs = b.I64(1000, 3000), b.I64(4000, 15000)
	for _, p := range ps {
		c := b.addCred(p, func(c *Cred) { c.MaxConns = 50 })
		burst := b.P(0.5)
		for i, n := 0, cp+1+b.N(2*cp+4); i < n; i++ {
			login := b.S("none", "ok", "ok", "secret")
			var o []Op
			for k := b.N(4); k >= 0; k-- {
				o = append(o, b.nap(0, b.I64(500, 20*msU, 2*secU)))
				switch b.N(6) {
				case 0:
					o = append(o, op("close", 0, 0), Op{K: "reconnect", A: b.Range(0, 20*msU), S: b.S("none", "ok")})
				case 1:
					o = append(o, op("abort", 0, 0), Op{K: "reconnect", A: b.Range(0, 20*msU), S: b.S("none", "ok")})
				case 2:
					o = append(o, ops("burst", b.letters("sa", 1+b.N(3))))
				case 3:
					o = append(o, ops("burst", "t"), op("awaiteof", 3000, 0), Op{K: "reconnect", A: b.Range(0, 20*msU), S: "ok"})
				case 4:
					o = append(o, op("awaiteof", 500, 0))
				}
			}
			if b.P(0.3) {
				login, o = "none", append(b.hasty(), o...)
			}
			pr := b.peer(c, login, o...)
			pr.Link = lk()
			pr.NoHB = b.P(0.2)
			pr.StartUs = b.Range(0, 3*secU)
			if burst {
				pr.StartUs = b.Range(0, b.I64(1, 200, 3000))
				pr.Link = Link{LatMinUs: 10, LatMaxUs: b.I64(11, 100)}
			}
		}
	}
}

func (b *sb) genP03(lk func() Link) {
	ps := b.somePeers()
	b.gws(200, ps...)
	b.sv.NoProbe = true
	for _, p := range ps {
		for k := 0; k < 1+b.N(2); k++ {
			mx := b.I(1, 1, 2, 3, 4)
			c := b.addCred(p, func(c *Cred) { c.MaxConns = mx; c.Window = b.I(2, 16) })
			tight := b.P(0.6)
			if b.P(0.1) { // full with clients that fall silent
				b.sv.TickMs = b.I64(2000, 10_000)
				for i := 0; i < mx; i++ {
					pr := b.peer(c, "ok", op("sleep", b.Range(70*secU, 100*secU), 0))
					pr.NoHB = b.P(0.7)
				}
				for i := 0; i < 3; i++ {
					pr := b.peer(c, "ok", b.nap(0, 5*secU))
					pr.StartUs = b.Range(55*secU, 100*secU)
				}
				continue
			}
			for i, n := 0, mx+1+b.N(6); i < n; i++ {
				var o []Op
				for k := b.N(3); k > 0; k-- {
					o = append(o, b.nap(0, b.I64(2*msU, 50*msU, secU)), ops("burst", b.letters("sa", 1+b.N(3))), op("await", 2000, 0))
					o = append(o, Op{K: b.S("close", "abort", "term", "login"), S: "ok"})
					o = append(o, b.nap(0, b.I64(200, 20*msU, 300*msU)), Op{K: "reconnect", A: b.Range(0, 10*msU), S: b.S("ok", "ok", "ok", "secret")})
				}
				login := b.S("ok", "ok", "ok", "secret", "none")
				if b.P(0.2) {
					login, o = "none", append(b.hasty(), o...)
				}
				pr := b.peer(c, login, o...)
				pr.Link = lk()
				if tight {
					pr.StartUs = b.Range(0, b.I64(1, 100, 2000))
					pr.Link = Link{LatMinUs: 10, LatMaxUs: b.I64(11, 200)}
				}
			}
		}
	}
}

func (b *sb) genP04(lk func() Link) {
	ps := b.somePeers()
	b.gws(100, ps...)
	if b.P(0.2) {
		b.sv.Success = 0.5
	}
	big := b.P(0.1)
	if big {
		b.sv.MaxResp = 3
	}
	for _, p := range ps {
		c := b.addCred(p, func(c *Cred) { c.Window = b.I(1, 2, 3, 8, 16, 32, 64); c.Tput = b.I(20, 200, 1000, 5000) })
		for i := 0; i < 1+b.N(3); i++ {
			var o []Op
			for k := 1 + b.N(4); k > 0; k-- {
				n := int64(1 + b.N(20))
				if big {
					n *= 6
				}
				switch b.N(5) {
				case 0:
					o = append(o, ops("burst", b.letters("ssssSad", int(n))))
				case 1:
					o = append(o, op("submits", n, b.Range(0, 30*msU)))
				case 2:
					o = append(o, op("pingpong", n, b.I64(0, 0, 5*msU)))
				case 3:
					o = append(o, op("keepw", n, b.I64(1, 2, 8, 16)))
				case 4:
					o = append(o, ops("burst", b.letters(b.S("sa", "sad", "sd"), int(n))), b.nap(0, 300*msU))
				}
				if b.P(0.2) {
					o = append(o, Op{K: b.S("pause", "stall"), A: b.Range(1, 2000)})
				}
			}
			if b.P(0.15) {
				o = append(o, Op{K: b.S("close", "abort", "term", "cwrite")})
			}
			pr := b.peer(c, "ok", o...)
			pr.Link = lk()
			pr.NoAck = b.P(0.2)
		}
	}
	b.probes()
}

func (b *sb) genP05() {
	b.gws(100, b.somePeers()...)
	b.sv.MaxResp = b.I64(1, 3, 20)
	b.sv.Report = b.I64(0, 5)
	b.sv.ForceMs = 300_000
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(2, 8, 16, 64); c.Tput = b.I(200, 1000) })
		for i := 0; i < 1+b.N(3); i++ {
			var o []Op
			for k := 1 + b.N(3); k > 0; k-- {
				o = append(o, ops("burst", b.letters(b.S("sa", "a", "saS", "sSa", "sasad", "sar", "ss"), 1+b.N(12))))
				o = append(o, b.nap(0, b.I64(0, 3*msU, 200*msU, 35*secU)))
			}
			if b.P(0.3) {
				o = append(o, ops("burst", b.letters("sa", b.N(3))+"t"))
			}
			if b.P(0.4) {
				o = append(o, ops("burst", b.letters("sa", 1+b.N(3))), op("sleep", 35*secU, 0))
			}
			pr := b.peer(c, "ok", o...)
			pr.NoAck = b.P(0.6)
			pr.Link = b.link(true)
			if b.P(0.5) {
				pr.Link.Seg = b.I(0, 1, 2, 5, 11, 12, 13, 50)
				pr.Link.CoalUs = b.I64(0, 1000, 100000)
			}
		}
	}
	b.probes()
}

func (b *sb) hostileOps(n int) (o []Op) {
	for ; n > 0; n-- {
		switch b.N(4) {
		case 0:
			o = append(o, ops("raw", b.junk()))
		default:
			o = append(o, Op{K: "mutate", A: int64(b.U64() >> 2), B: int64(b.N(10)), S: b.S("login", "odd", "odd", "submit", "submit", "submit2", "submit2", "deliverrsp", "deliver", "report", "submitrsp", "loginrsp", "active", "active_rsp", "term", "term_rsp")})
		}
		o = append(o, b.nap(0, b.I64(0, 500, 20*msU)))
	}
	return
}

func (b *sb) junk() string {
	n := 1 + b.N(60)
	if b.P(0.1) {
		n = 3000 + b.N(3000)
	}
	x := make([]byte, n)
	for i := range x {
		x[i] = byte(b.U64())
	}
	if b.P(0.6) && n >= 12 { // plausible header
		l := n
		if b.P(0.3) {
			l = b.I(12, 13, 20, 5120, n+1)
		}
		x[0], x[1], x[2], x[3] = 0, 0, byte(l>>8), byte(l)
		x[4], x[5], x[6], x[7] = byte(b.I(0, 0, 0x80)), 0, 0, byte(1+b.N(9))
	}
	return fmt.Sprintf("%x", x)
}

func (b *sb) genP06(lk func() Link) {
	b.gws(100, protos...)
	b.sv.Loops = b.I(1, 1, 2)
	for _, p := range protos {
		c := b.addCred(p, func(c *Cred) { c.MaxConns = 100 })
		for i := 0; i < 2+b.N(4); i++ {
			login := b.S("none", "none", "ok", "ok", "ok", "secret")
			o := []Op{b.nap(0, 200*msU)}
			if b.P(0.4) && login == "ok" {
				o = append(o, ops("burst", b.letters("sSa", 1+b.N(4))))
			}
			for k := b.N(6); k > 0; k-- { // one bad packet per session, and time to see what comes of it
				o = append(o, b.hostileOps(1)...)
				o = append(o, b.nap(50*msU, 300*msU), Op{K: "reconnect", A: b.Range(0, 20*msU), S: b.S("ok", "ok", "ok", "none")})
			}
			for k := 1 + b.N(2); k > 0; k-- {
				o = append(o, b.hostileOps(1+b.N(3))...)
				if b.P(0.6) {
					o = append(o, b.nap(20*msU, 400*msU))
				}
				switch b.N(5) {
				case 0:
					o = append(o, op("abort", 0, 0))
				case 1:
					o = append(o, op("close", 0, 0))
				case 2:
					o = append(o, op("awaiteof", 1000, 0))
				case 3:
					o = append(o, ops("burst", b.letters("sat", 1+b.N(2))))
				}
				o = append(o, Op{K: "reconnect", A: b.Range(0, 50*msU), S: b.S("none", "ok", "ok")})
			}
			pr := b.peer(c, login, o...)
			pr.Link = lk()
			pr.Role = "hostile"
		}
		h := b.addCred(p, nil)
		pr := b.peer(h, "ok", op("pingpong", 10, 20*msU), b.nap(0, 300*msU), op("pingpong", 10, 1*msU))
		pr.Link = lk()
	}
	b.probes()
}

func (b *sb) genP07() {
	b.gws(100, b.somePeers()...)
	b.sv.MaxResp = 1
	b.sv.Report = b.I64(0, 0, 2)
	if b.P(0.6) {
		b.s.Sched.StallProb = 0
	}
	for _, g := range b.sv.GWs {
		T := b.I(1, 3, 7, 10, 30, 60, 120, 333, 600, 3000)
		W := b.I(1, 2, 3, 5, 8, 16)
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = W; c.Tput = T })
		for i := 0; i < 1+b.N(3); i++ {
			var o []Op
			per := int64(secU / T)
			for k := 2 + b.N(5); k > 0; k-- {
				n := int64(1 + b.N(2*W+4))
				switch b.N(4) {
				case 0:
					o = append(o, ops("burst", b.letters("s", int(n))))
				case 1: // just below or above the rate
					o = append(o, op("submits", n, per*b.Range(80, 130)/100))
				case 2:
					o = append(o, op("submits", n, b.Range(0, 2*per)))
				case 3:
					o = append(o, op("keepw", n, int64(W)))
				}
				o = append(o, b.nap(0, min64(per*b.Range(0, int64(2*W)), 20*secU)))
			}
			pr := b.peer(c, "ok", o...)
			pr.Link = Link{LatMinUs: 10, LatMaxUs: b.I64(20, 500)}
			if b.P(0.2) {
				pr.Link = b.link(true)
			}
			pr.NoAck = b.P(0.5)
		}
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (b *sb) genP08(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.Report = b.I64(0, 1, 20, 200)
	b.sv.MaxResp = b.I64(1, 5, 50)
	if b.P(0.3) {
		b.sv.Success = b.F(0.3, 0.8)
	}
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(1, 2, 4, 16, 32); c.Tput = b.I(10, 100, 1000) })
		for i := 0; i < 1+b.N(4); i++ {
			var o []Op
			for k := 1 + b.N(3); k > 0; k-- {
				o = append(o, ops("burst", b.letters("ssSs", 1+b.N(12))), b.nap(0, b.I64(1000, 100*msU)))
			}
			if b.P(0.15) {
				o = append(o, Op{K: b.S("close", "abort", "term")})
			}
			pr := b.peer(c, "ok", o...)
			pr.Link = lk()
			pr.NoAck = b.P(0.4)
		}
	}
	b.probes()
}

func (b *sb) genP09(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.QuietS = 200
	b.sv.TickMs, b.sv.ForceMs = b.I64(1000, 5000), b.I64(6000, 20000)
	b.sv.MaxResp = b.I64(1, 20, 500, 3000)
	b.sv.MinResp = b.I64(0, b.sv.MaxResp/2)
	b.sv.Report = b.I64(0, 5, 100, 1000)
	b.s.Sched.MaxSteps = 80_000_000
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(1, 2, 4, 16); c.Tput = b.I(5, 1000); c.MaxConns = b.I(2, 4, 30) })
		for i := 0; i < 1+b.N(5); i++ {
			var o []Op
			login := b.S("ok", "ok", "ok", "ok+s+s", "none", "secret", "ok+t")
			for k := 1 + b.N(2); k > 0; k-- {
				if b.P(0.8) {
					o = append(o, ops("burst", b.letters("ssssa", 1+b.N(20))))
				}
				if b.P(0.2) {
					o = append(o, Op{K: "pause", A: b.Range(0, 3000)})
				}
				if b.P(0.2) {
					o = append(o, Op{K: "login", A: b.Range(0, 20*msU), S: b.S("ok", "secret")})
				}
				o = append(o, b.nap(0, b.I64(200, 20*msU, 2*secU)))
				o = append(o, Op{K: b.S("close", "abort", "vanish", "term", "cwrite", "abort")})
				if b.P(0.5) {
					o = append(o, b.nap(0, b.I64(100, 10*msU)), Op{K: "reconnect", A: b.Range(0, secU), S: b.S("ok", "ok", "none")})
				}
			}
			if b.P(0.2) {
				login, o = "none", append(b.hasty(), o...)
			}
			pr := b.peer(c, login, o...)
			pr.Link = lk()
			pr.NoAck = b.P(0.5)
			pr.NoHB = b.P(0.3)
		}
	}
	b.probes()
}

func (b *sb) genP10(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.TickMs = b.I64(2000, 5000, 10000)
	b.sv.ForceMs = b.I64(60_000+5*b.sv.TickMs, 150_000, 300_000)
	if b.P(0.25) {
		b.sv.ForceMs = b.I64(10_000, 30_000)
	}
	b.sv.MO = b.P(0.15)
	b.s.Sched.MaxSteps = 80_000_000
	if b.P(0.6) {
		b.s.Sched.StallProb = 0
	}
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.MaxConns = 40 })
		for i := 0; i < 1+b.N(4); i++ {
			var o []Op
			login := b.S("ok", "ok", "ok", "ok", "none")
			long := b.Range(100, 500) * secU
			if b.P(0.5) {
				o = append(o, ops("burst", b.letters("sa", 1+b.N(4))))
			}
			kind := b.N(7)
			switch kind {
			case 0: // activity in between
				for k := 2 + b.N(4); k > 0; k-- {
					o = append(o, b.nap(5*secU, 100*secU), ops("burst", b.letters("sa", 1)))
				}
			case 1:
				o = append(o, b.nap(0, 80*secU), op("vanish", 0, 0))
				long = 1
			case 2:
				o = append(o, b.nap(0, 10*secU), Op{K: "pause", A: 0})
			}
			o = append(o, op("sleep", long, 0))
			if login == "ok" && b.P(0.2) { // takes its time to log in
				o = append([]Op{b.nap(secU, min(b.sv.ForceMs-2000, 100_000)*msU), Op{K: "login", S: "ok"}}, o...)
				login = "none"
			}
			pr := b.peer(c, login, o...)
			pr.Link = lk()
			switch kind {
			case 3, 4:
				pr.NoHB = true
				pr.NoTermRsp = b.P(0.5)
			case 5:
				pr.HBMax = 1 + b.N(4)
			case 6:
				pr.HBDelayMs = b.Range(1, b.sv.TickMs*3/4)
			}
		}
	}
}

func (b *sb) genP11(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.MaxResp = b.I64(1, 10, 200, 1500)
	b.sv.MinResp = b.I64(0, b.sv.MaxResp/2)
	b.sv.Report = b.I64(0, 5, 300)
	b.sv.TickMs = b.I64(1000, 10000)
	if b.P(0.3) {
		b.sv.ForceMs = 8000
	}
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(1, 2, 4, 16); c.Tput = b.I(5, 50, 1000); c.MaxConns = 40 })
		for i := 0; i < 1+b.N(4); i++ {
			var o []Op
			for k := 1 + b.N(2); k > 0; k-- {
				if b.P(0.2) {
					o = append(o, op("sleep", 25*secU, 0))
				}
				o = append(o, ops("burst", b.letters("ssssa", b.N(30))), b.nap(0, b.I64(0, 5*msU, 300*msU)))
				o = append(o, ops("burst", b.S("t", "t", "t", "st", "at", "tt")), op("awaiteof", 60_000, 0))
				o = append(o, Op{K: "reconnect", A: b.Range(0, 300*msU), S: "ok"})
			}
			o = append(o, ops("burst", "s"), op("await", 5000, 0))
			pr := b.peer(c, "ok", o...)
			pr.Link = lk()
			pr.NoAck = b.P(0.4)
			pr.NoTermRsp = b.P(0.2)
		}
	}
}

func (b *sb) genP13(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.MonUs = b.I64(200, 2000, 20000)
	b.sv.MaxResp = b.I64(1, 5, 50)
	b.sv.Report = b.I64(0, 5, 100)
	b.sv.MO = b.P(0.6)
	b.sv.TickMs, b.sv.ForceMs = b.I64(200, 1000), b.I64(5000, 30000)
	if b.P(0.2) {
		b.sv.Success = 0.5
	}
	for _, g := range b.sv.GWs {
		c := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(1, 4, 16); c.Tput = b.I(10, 1000); c.MaxConns = 40 })
		for i := 0; i < 1+b.N(5); i++ {
			var o []Op
			for k := 1 + b.N(2); k > 0; k-- {
				o = append(o, ops("burst", b.letters("ssssSa", b.N(20))), b.nap(0, b.I64(500, 30*msU, secU)))
				if b.P(0.2) {
					o = append(o, b.nap(0, 4*secU))
				}
				o = append(o, Op{K: b.S("close", "abort", "term", "cwrite", "await"), A: 3000})
				if b.P(0.5) {
					o = append(o, Op{K: "reconnect", A: b.Range(0, 100*msU), S: b.S("ok", "ok", "none", "secret")})
				}
			}
			pr := b.peer(c, b.S("ok", "ok", "ok", "ok", "none", "secret"), o...)
			pr.Link = lk()
			pr.NoAck = b.P(0.4)
		}
	}
}

func (b *sb) genP14() {
	b.gws(100, b.somePeers()...)
	b.sv.Loops = b.I(1, 1, 1, 2)
	b.s.Sched.StallProb = 0
	b.s.Sched.StepNs = 20
	b.sv.MaxResp = b.I64(1, 5, 50)
	b.sv.Report = b.I64(0, 5, 200, 800)
	b.sv.MO = b.P(0.2)
	b.sv.TickMs, b.sv.ForceMs = b.I64(1000, 3000), b.I64(5000, 12000)
	for _, g := range b.sv.GWs {
		h := b.addCred(g.Proto, func(c *Cred) { c.Window = 32; c.Tput = 2000 })
		for i := 0; i < 1+b.N(2); i++ {
			pr := b.peer(h, "ok", op("pingpong", 60+int64(b.N(200)), b.I64(40*msU, 100*msU, 150*msU)))
			pr.Link = Link{LatMinUs: 20, LatMaxUs: 500}
			pr.Role = "healthy"
			pr.StartUs = b.Range(0, 100*msU)
		}
		bad := b.addCred(g.Proto, func(c *Cred) { c.Window = b.I(1, 2, 4, 32); c.Tput = b.I(10, 1000); c.MaxConns = 60 })
		for i := 0; i < 1+b.N(6); i++ {
			var o []Op
			login := "ok"
			var pr *Peer
			switch b.N(7) {
			case 0: // stops reading
				o = append(o, op("pause", 0, 0), op("submits", 40, b.Range(0, 50*msU)), op("sleep", 20*secU, 0))
			case 1: // vanishes
				o = append(o, ops("burst", b.letters("s", 1+b.N(20))), op("vanish", 0, 0))
			case 2: // floods
				for k := 0; k < 4+b.N(8); k++ {
					o = append(o, ops("burst", b.letters("sa", 20+b.N(20))), b.nap(0, 500*msU))
				}
			case 3: // idle, timed out
				o = append(o, op("sleep", 20*secU, 0))
			case 4: // never logs in
				login = "none"
				o = append(o, op("sleep", 20*secU, 0))
			case 5: // trickles
				o = append(o, op("submits", 30, b.Range(msU, 200*msU)))
			case 6: // hostile
				o = b.hostileOps(4)
			}
			pr = b.peer(bad, login, o...)
			pr.NoHB, pr.NoAck, pr.NoTermRsp = b.P(0.5), b.P(0.5), b.P(0.5)
			pr.Link = b.link(true)
			pr.Role = "bad"
			pr.StartUs = b.Range(0, 3*secU)
			if b.P(0.3) {
				pr.Link.RcvWnd, pr.Link.SndBuf = 256, 256
			}
		}
	}
	b.probes()
}

// MOTexts spells the configured upstream messages out.
func MOTexts(l []string) []string {
	out := []string{}
	for _, c := range l {
		i := strings.Index(c, "@")
		if i < 0 {
			out = append(out, c)
			continue
		}
		var n int
		k := c[i+1 : i+2]
		fmt.Sscanf(c[i+2:], "%d", &n)
		t := []rune{}
		for j := 0; len(t) < n; j++ {
			switch k {
			case "c":
				t = append(t, rune(0x4e00+(j*37+n)%20000))
			case "e": // outside the basic plane, here and there
				t = append(t, []rune{0x1f600 + rune(j%60), 'x', 0x5b57}[(j+n)%3])
			case "l": // Latin with accents
				t = append(t, []rune("café über naïve Åse ")[j%20])
			case "m": // mixed, the Chinese part late
				if j < n-2 {
					t = append(t, rune('a'+j%26))
				} else {
					t = append(t, 0x4f60)
				}
			default:
				t = append(t, rune(' '+(j*7+n)%94))
			}
		}
		out = append(out, c[:i]+strings.ReplaceAll(string(t), "_,_", "___"))
	}
	return out
}

func (b *sb) genP22(lk func() Link) {
	b.gws(100, b.somePeers()...)
	b.sv.TickMs = b.I64(200, 1000, 1000, 5000)
	b.sv.ForceMs = b.I64(8000, 30_000, 300_000)
	b.sv.MaxResp = b.I64(1, 20, 300)
	b.sv.Report = b.I64(0, 5, 300)
	b.sv.MO = b.P(0.9)
	b.sv.MORate = b.F(0.3, 0.9, 1, 1, 1)
	b.sv.Contents = []string{}
	for n := b.I(1, 1, 2, 3, 5, 0); n > 0; n-- {
		sub := b.S("0010", "0011", "1", "", "99", "12345678")
		switch b.N(8) {
		case 0:
			b.sv.Contents = append(b.sv.Contents, b.S("no separator", "", "0010", "12,text"))
		case 1:
			b.sv.Contents = append(b.sv.Contents, sub+"_,_"+b.S("hello world", "TD", "x", "", "你是个好人！"))
		default:
			b.sv.Contents = append(b.sv.Contents, fmt.Sprintf("%s_,_@%s%d", sub, b.S("t", "t", "c", "c", "e", "l", "m"), b.I(1, 2, 30, 34, 35, 36, 46, 47, 66, 67, 68, 69, 70, 71, 72, 80, 134, 139, 140, 141, 153, 159, 160, 161, 200, 254, 256, 300, 700)))
		}
	}
	for _, g := range b.sv.GWs {
		for k := 1 + b.N(2); k > 0; k-- {
			c := b.addCred(g.Proto, func(c *Cred) { c.MaxConns = b.I(2, 40); c.Display = c.Display[:b.I(4, 8, 6)] })
			for i := 0; i < 1+b.N(3); i++ {
				var o []Op
				for k := 1 + b.N(3); k > 0; k-- {
					switch b.N(4) {
					case 0:
						o = append(o, ops("burst", b.letters("sssSa", 1+b.N(8))))
					case 1:
						o = append(o, ops("burst", b.letters("sa", 1)))
					}
					o = append(o, b.nap(0, b.I64(100, 1000, 6000)*b.sv.TickMs))
					if b.P(0.3) {
						o = append(o, Op{K: b.S("close", "abort", "term", "cwrite", "vanish"), A: 3000})
						if b.P(0.7) {
							o = append(o, Op{K: "reconnect", A: b.Range(0, 3*b.sv.TickMs*msU), S: b.S("ok", "ok", "ok", "none", "secret")})
						} else {
							break
						}
					}
				}
				pr := b.peer(c, b.S("ok", "ok", "ok", "ok", "ok", "none", "secret"), o...)
				pr.Link = lk()
				pr.NoAck = b.P(0.3)
				pr.NoHB = b.P(0.1)
				pr.StartUs = b.Range(0, 2*b.sv.TickMs*msU)
			}
		}
	}
	b.probes()
}

// genP24: credentials change while sessions come and go.
func (b *sb) genP24(lk func() Link) {
	ps := b.somePeers()
	b.gws(200, ps...)
	b.sv.ReloadMs = b.I64(300, 2000, 2000, 10000)
	b.sv.MaxResp = b.I64(1, 1, 5)
	b.sv.Report = b.I64(0, 5)
	b.sv.Loops = b.I(1, 2)
	if b.P(0.6) {
		b.s.Sched.StallProb = 0
	}
	dwell := b.sv.ReloadMs + 2500
	end := int64(0)
	for _, p := range ps {
		for k := 0; k < 1+b.N(2); k++ {
			ver := 0
			draw := func(c *Cred) {
				c.MaxConns = b.I(1, 2, 2, 3, 5)
				c.Window = b.I(1, 2, 4, 16)
				c.Tput = b.I(1, 5, 20, 200)
			}
			ci := b.addCred(p, draw)
			cr := b.sv.Creds[ci]
			base := cr.Secret
			b.sv.Creds[ci].Late = b.P(0.15)
			t := b.Range(0, 3000)
			var at []int64
			for n := 1 + b.N(4); n > 0; n-- {
				o := CredOp{AtMs: t, C: ci, K: "put"}
				switch b.N(8) {
				case 0:
					o.K, o.S, o.ForMs = "bad", b.S("torn", "malformed", "nosecret", "type"), b.Range(0, 5)
				case 1:
					o.K = "rm"
				case 2, 3: // the secret stays
					draw(&cr)
				case 4: // only the secret changes
					ver++
					cr.Secret = fmt.Sprintf("n%dw%s", ver, base)
				case 5: // back to what it was
					cr.Secret = base
				default:
					ver++
					cr.Secret = fmt.Sprintf("n%dw%s", ver, base)
					draw(&cr)
				}
				o.Secret = cr.Secret
				o.MaxConns, o.Window, o.Tput = cr.MaxConns, cr.Window, cr.Tput
				if o.K == "bad" { // with other values, not to be used
					o.Secret = "bad" + base
					o.MaxConns, o.Window, o.Tput = b.I(1, 20), b.I(1, 64), b.I(1, 2000)
				}
				at = append(at, t)
				b.sv.CredOps = append(b.sv.CredOps, o)
				t += b.I64(b.Range(1, 500), b.Range(1, dwell), dwell+b.Range(0, dwell))
			}
			end = max(end, t+dwell)
			for i, n := 0, 2+b.N(5); i < n; i++ {
				var o []Op
				now := int64(0)
				serve := func() {
					switch b.N(4) {
					case 0:
						o = append(o, ops("burst", b.letters("sssSa", 1+b.N(20))))
					case 1:
						o = append(o, op("submits", int64(2+b.N(12)), b.Range(0, 150*msU)))
					case 2:
						o = append(o, op("keepw", int64(2+b.N(12)), b.I64(1, 4, 16)))
					case 3:
						o = append(o, ops("burst", "s"), op("await", 2000, 0))
					}
				}
				first := at[b.N(len(at))] + b.I64(-dwell, -200, 0, 50, b.sv.ReloadMs, dwell)
				if first < 0 {
					first = b.Range(0, 50)
				}
				now = first
				serve()
				for k := b.N(4); k > 0; k-- {
					to := at[b.N(len(at))] + b.I64(-100, 0, 100, b.sv.ReloadMs/2, b.sv.ReloadMs, dwell, dwell+100)
					d := to - now
					if d <= 0 {
						d = b.Range(10, dwell)
					}
					now += d
					o = append(o, op("sleep", d*msU, 0))
					if b.P(0.6) { // another session
						o = append(o, Op{K: b.S("close", "abort", "term", "close")}, Op{K: "reconnect", A: b.Range(0, 300*msU), S: b.S("ok", "ok", "ok", "old", "old", "secret", "unknown", "ver")})
					}
					serve()
				}
				if b.P(0.4) {
					o = append(o, op("sleep", b.Range(0, dwell)*msU, 0))
					serve()
				}
				pr := b.peer(ci, b.S("ok", "ok", "ok", "ok", "old", "secret"), o...)
				pr.Link = lk()
				pr.StartUs = first*msU + b.Range(0, 1000)
			}
		}
	}
	for k := b.N(3); k > 0; k-- {
		b.sv.CredOps = append(b.sv.CredOps, CredOp{AtMs: b.Range(0, end), K: "ioerr", C: -1, S: b.S("readdir", "open", "read", "stat"), ForMs: b.Range(1, b.I64(100, dwell, 2*dwell))})
	}
	if b.P(0.4) { // one entry cannot be read for long
		b.sv.CredOps = append(b.sv.CredOps, CredOp{AtMs: b.Range(0, 500), K: "ioerr", C: b.N(len(b.sv.Creds)), S: b.S("open", "read"), ForMs: end})
	}
	sort.SliceStable(b.sv.CredOps, func(i, j int) bool { return b.sv.CredOps[i].AtMs < b.sv.CredOps[j].AtMs })
	b.probes()
	b.s.Sched.MaxSteps = 80_000_000
}

// genP25: the configuration of the simulated service, edited while it runs.
func (b *sb) genP25(lk func() Link) {
	ps := b.somePeers()
	b.gws(200, ps...)
	b.sv.Loops = b.I(1, 2)
	edge := b.P(0.25)
	if edge {
		b.s.Sched.DiceEdge = b.F(0.05, 0.3)
	}
	if b.P(0.6) {
		b.s.Sched.StallProb = 0
	}
	c := Conf{}
	draw := func(all bool) {
		for some := false; !some; {
			hit := func() bool { h := all || b.P(0.3); some = some || h; return h }
			if hit() {
				c.Success = b.F(0, 0.1, 0.3, 0.5, 0.5, 0.7, 0.9, 1, 1)
				if edge {
					c.Success = b.F(0, 1)
				}
			}
			if hit() {
				c.MinResp = b.I64(0, 0, 10, 100, 400)
				c.MaxResp = c.MinResp + b.I64(0, 1, 50, 200, 1000)
			}
			if hit() {
				c.Report = b.I64(0, 5, 200, 1500)
			}
			if hit() {
				c.MO = b.P(0.6)
				c.MORate = b.F(0, 0.2, 0.5, 0.8, 1, 1)
				if edge {
					c.MORate = b.F(0, 1)
				}
			}
			if hit() {
				c.ForceMs = b.I64(15_000, 30_000, 60_000)
			}
			if b.P(0.3) || all {
				c.TickMs = b.I64(300, 1000, 1000, 3000)
			}
		}
	}
	draw(true)
	first := c
	b.sv.Conf = &first
	t := b.Range(1000, 20_000)
	gap := [2]int64{30, 150}
	long := int64(0)
	if b.P(0.2) { // fewer messages, more ticks
		gap, long = [2]int64{500, 2000}, 100_000
	}
	for n := b.I(0, 1, 1, 2, 3, 4); n > 0; n-- {
		draw(false)
		b.sv.ConfOps = append(b.sv.ConfOps, ConfOp{t, c})
		t += b.I64(b.Range(1, 2000), b.Range(3000, 25_000), b.Range(3000, 25_000)) + b.Range(0, long)
	}
	end := t + b.Range(0, 10_000)
	// what the rest of the run reckons with
	sv := b.sv
	sv.Success, sv.MinResp, sv.MaxResp, sv.Report, sv.TickMs, sv.ForceMs, sv.MO, sv.MORate = c.Success, c.MinResp, c.MaxResp, c.Report, c.TickMs, c.ForceMs, c.MO, c.MORate
	for _, k := range append([]ConfOp{{0, first}}, sv.ConfOps...) {
		k := k.Conf
		sv.Success, sv.MinResp, sv.MaxResp, sv.Report = min(sv.Success, k.Success), min(sv.MinResp, k.MinResp), max(sv.MaxResp, k.MaxResp), max(sv.Report, k.Report)
		sv.TickMs, sv.ForceMs, sv.MO, sv.MORate = max(sv.TickMs, k.TickMs), min(sv.ForceMs, k.ForceMs), sv.MO || k.MO, max(sv.MORate, k.MORate)
	}
	for _, p := range ps {
		for k := 1 + b.N(2); k > 0; k-- {
			ci := b.addCred(p, func(c *Cred) { c.Window = b.I(100, 150); c.Tput = b.I(5000, 20000) })
			for i := 1 + b.N(2); i > 0; i-- {
				w := b.I64(1, 1, 4, 30)
				pr := b.peer(ci, "ok", Op{K: "load", A: end + b.Range(0, 2000), B: w, C: b.Range(gap[0], gap[1])})
				pr.Link = lk()
				if b.P(0.5) {
					pr.Ops = append(pr.Ops, op("await", 5000, 0), Op{K: b.S("close", "term", "cwrite"), A: 3000})
				}
			}
		}
		// quiet ones
		for i := b.N(3); i > 0; i-- {
			ci := b.addCred(p, nil)
			pr := b.peer(ci, b.S("none", "ok"), op("sleep", (end+b.I64(0, 100_000))*msU, 0))
			pr.Role = "idle"
			pr.StartUs = b.Range(0, end) * msU
		}
	}
	b.probes()
	b.s.Sched.MaxSteps = 80_000_000
}
