package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"harness/wire"
	"plan"
	"simrt"

	"github.com/hrygo/log"
)

// Failure codes of a login the gateway must turn down.
var loginCodes = map[string]map[string][]uint32{
	wire.CMPP: {"unknown": {2}, "secret": {3}, "ver": {4}, "verandsecret": {3, 4}, "limit": {5}},
	wire.SMGP: {"unknown": {69}, "secret": {21}, "ver": {22}, "verandsecret": {21, 22}, "limit": {2}},
	wire.SGIP: {"unknown": {1}, "secret": {1}, "ver": {1}, "verandsecret": {1}, "limit": {3}},
}

var flowCode = map[string]uint32{wire.CMPP: 8, wire.SMGP: 1, wire.SGIP: 33}
var mockCode = map[string]uint32{wire.CMPP: 8, wire.SMGP: 75, wire.SGIP: 33}

func in(c uint32, l []uint32) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

// slack bounds what scheduling stalls and the simulated CPU can have added
// anywhere in the run so far.
func slack() int64 {
	st := simrt.GetStats()
	return st.Stalls*spec.Sched.StallMaxUs*1000 + st.Steps*spec.Sched.StepNs
}

func (c *sconn) first(kind string) *sent {
	for _, x := range c.sents {
		if x.kind == kind {
			return x
		}
	}
	return nil
}

// unanswered finds the oldest unanswered request with that number.
func (c *sconn) unanswered(kind, seq string) (x *sent, any bool) {
	l := c.bySeq[kind+"/"+seq]
	for _, s := range l {
		if len(s.resp) == 0 {
			return s, true
		}
	}
	return nil, len(l) > 0
}

func (c *sconn) onTap(f *frame) {
	p := f.p
	c.ownSeq(f)
	if p.Err != "" && !c.hostile {
		props := "P04,P05"
		if p.Kind == wire.Report || p.Kind == wire.Deliver {
			props += ",P08"
		}
		violate(props, "bad-server-frame", "c%d %s: server sent a bad %s frame: %s (%x)", c.id, c.proto, p.Kind, p.Err, p.Raw)
	}
	switch p.Kind {
	case wire.LoginRsp:
		x, any := c.unanswered(wire.Login, p.Seq)
		if x == nil {
			if !c.hostile {
				violate("P01", "login-answers", "c%d %s: a login response (status %d) no login asked for (repeated: %v)", c.id, c.proto, p.Status, any)
			}
		} else {
			x.resp = append(x.resp, f)
		}
		var match []*credVer
		if x != nil {
			match = c.judge(x, f.at, int64(p.Status))
		}
		if p.Status == 0 {
			if x != nil && x.expect != "ok" {
				violate("P01,P24", "bad-login-accepted", "c%d %s: login with %s as %s accepted", c.id, c.proto, x.expect, c.cred.ID)
			}
			if c.okTap == 0 {
				c.okTap = f.at
			}
			probe("login_ok")
			if x != nil && x == c.sents[0] {
				c.admit(match)
			}
			c.limitHeld()
		} else {
			probe(fmt.Sprintf("login_refused_%d", p.Status))
			if c.failTap == 0 {
				c.failTap = f.at
			}
			if x != nil {
				c.refusal(x, f, match)
			}
		}
	case wire.SubmitRsp:
		x, any := c.unanswered(wire.Submit, p.Seq)
		if c.okTap == 0 {
			violate("P01", "served-without-login", "c%d %s: submit response %d before any successful login", c.id, c.proto, p.Status)
		}
		if x == nil {
			if !c.hostile || any {
				violate("P04", "extra-response", "c%d %s: submit response %s (status %d) that no submit asks for (answered before: %v)", c.id, c.proto, p.Seq, p.Status, any)
			}
			if p.Status == 0 {
				c.accepted++
			}
			return
		}
		x.resp = append(x.resp, f)
		if p.Status == 0 {
			c.accepted++
			probe("submit_accepted")
			if c.proto != wire.SGIP {
				k := c.proto + "/" + p.MsgID
				if o := w.msgids[k]; o != "" {
					violate("P04", "msgid-reused", "c%d %s: message id %s was already given to %s", c.id, c.proto, p.MsgID, o)
				}
				if strings.Trim(p.MsgID, "0") == "" {
					violate("P04", "msgid-zero", "c%d %s: accepted message without an id", c.id, c.proto)
				}
				w.msgids[k] = fmt.Sprintf("c%d seq %s", c.id, x.seq)
				c.byMsg[p.MsgID] = x
			}
		} else {
			probe(fmt.Sprintf("submit_refused_%d", p.Status))
			if p.Status != flowCode[c.proto] && (w.p.Success >= 1 || p.Status != mockCode[c.proto]) && x.ok {
				violate("P04,P07", "odd-status", "c%d %s: well-formed submit refused with %d", c.id, c.proto, p.Status)
			}
		}
	case wire.Report:
		c.reportsOut++
		if c.proto == wire.SGIP {
			violate("P08", "sgip-report", "c%d: a report on an SGIP submit connection", c.id)
			return
		}
		x := c.byMsg[p.MsgID]
		if x == nil {
			if !c.hostile {
				violate("P08", "unknown-report", "c%d %s: a report for message %s, which was not accepted on this session", c.id, c.proto, p.MsgID)
			}
			return
		}
		if len(x.reports) > 0 {
			violate("P08", "second-report", "c%d %s: a second report for message %s", c.id, c.proto, p.MsgID)
		}
		x.reports = append(x.reports, f)
		probe("report")
		// report goes from the message's destination to its source
		if p.Src != x.dest || len(p.Dests) == 0 {
			violate("P08", "report-numbers", "c%d %s: report for %s carries source %q, the message went to %q", c.id, c.proto, p.MsgID, p.Src, x.dest)
		} else if p.Dests[0] != x.src {
			violate("P08", "report-numbers", "c%d %s: report for %s is addressed to %q, the message came from %q", c.id, c.proto, p.MsgID, p.Dests[0], x.src)
		}
		if c.proto == wire.CMPP && p.Name != x.dest {
			violate("P08", "report-numbers", "c%d cmpp: report content names %q, the message went to %q", c.id, p.Name, x.dest)
		}
	case wire.ActiveRsp:
		x, any := c.unanswered(wire.Active, p.Seq)
		if x == nil {
			if !c.hostile || any {
				violate("P10", "extra-active-rsp", "c%d %s: heartbeat response %s that nothing asks for (answered before: %v)", c.id, c.proto, p.Seq, any)
			}
			return
		}
		if c.okTap == 0 {
			violate("P01", "served-without-login", "c%d %s: heartbeat answered before any successful login", c.id, c.proto)
		}
		x.resp = append(x.resp, f)
	case wire.TermRsp:
		x, any := c.unanswered(wire.Term, p.Seq)
		if x == nil {
			if !c.hostile || any {
				violate("P11", "extra-term-rsp", "c%d %s: logout response %s that nothing asks for (answered before: %v)", c.id, c.proto, p.Seq, any)
			}
			return
		}
		if c.okTap == 0 {
			violate("P01", "served-without-login", "c%d %s: logout answered before any successful login", c.id, c.proto)
		}
		x.resp = append(x.resp, f)
	case wire.Active:
		c.probes = append(c.probes, f.at)
		if c.okTap == 0 {
			violate("P10", "probe-before-login", "c%d %s: heartbeat sent to a connection that is not logged in", c.id, c.proto)
		}
		probe("heartbeat_sent")
	case wire.Term:
		c.srvTerm = append(c.srvTerm, f.at)
		probe("terminate_sent")
	case wire.Deliver:
		c.mo++
		probe("mo_sent")
		c.pushed(f)
	default:
		if !c.hostile {
			violate("P04", "odd-frame", "c%d %s: server sent %s", c.id, c.proto, p.Kind)
		}
	}
}

// limitHeld checks the per-client maximum at the moment of a login.
func (c *sconn) limitHeld() {
	n := 0
	for _, o := range w.conns {
		if o.ci == c.ci && o.okTap > 0 && o.am.closeEnter == 0 {
			n++
		}
	}
	if n > c.cred.MaxConns {
		violate("P03,P24", "over-limit", "%s client %s has %d logged-in connections, maximum %d", c.proto, c.cred.ID, n, c.cred.MaxConns)
	}
	if n == c.cred.MaxConns {
		probe("at_client_limit")
	}
}

// refusal judges a login that was turned down.
func (c *sconn) refusal(x *sent, f *frame, match []*credVer) {
	codes := loginCodes[c.proto]
	st := f.p.Status
	if x.expect != "ok" {
		if !in(st, codes[x.expect]) {
			violate("P01,P24", "wrong-code", "c%d %s: login with %s refused with status %d, expected one of %v", c.id, c.proto, x.expect, st, codes[x.expect])
		}
		return
	}
	if !in(st, codes["limit"]) {
		violate("P01,P03,P06,P09,P24", "good-login-refused", "c%d %s: correct login of %s refused with status %d", c.id, c.proto, c.cred.ID, st)
		return
	}
	// the limit is a reason only if enough others hold or are taking a slot
	n := 0
	for _, o := range w.conns {
		if o == c || o.ci != c.ci || o.am.refused {
			continue
		}
		if o.am.closeExit > 0 && o.am.closeExit < x.delivered {
			continue
		}
		maybe := false
		for _, y := range o.sents {
			if y.delivered > 0 && (y.kind == wire.Login && (y.expect == "ok" || len(y.resp) == 0 && w.creds != nil) || y.kind == "raw") {
				maybe = true
			}
		}
		if maybe {
			n++
		}
	}
	probe("limit_refusal")
	if c.okTap > 0 {
		return // a repeated login; its own session counts
	}
	if lo, _ := c.maxConns(match); n < lo {
		violate("P03,P09,P24", "refused-below-limit", "%s client %s refused for its connection limit %d although at most %d others were logged in or logging in", c.proto, c.cred.ID, lo, n)
	}
}

// journalCheck runs when the server has finished closing a session.
func journalCheck(a *adm) {
	c := w.byRemote[a.remote]
	var mine []*log.Rec
	for _, r := range journalRecs() {
		if r.Fields["remote"] == a.remote {
			mine = append(mine, r)
		}
	}
	if len(mine) != 1 {
		violate("P13", "record-count", "%d usage records for the session of %s", len(mine), a.remote)
		return
	}
	r := mine[0]
	probe("journal_checked")
	if !r.Durable {
		violate("P13", "not-flushed", "usage record of %s is not flushed when the session ends", a.remote)
	}
	if a.sid != 0 && num(r.Fields["sid"]) != int64(a.sid) {
		violate("P13", "record-sid", "usage record of %s names session %v, it was %d", a.remote, r.Fields["sid"], a.sid)
	}
	if num(r.Fields["sid"]) <= 0 {
		violate("P13", "record-sid", "usage record of %s names no session: %v", a.remote, r.Fields["sid"])
	}
	if r.Fields["server"] != w.gws[a.gw].Proto {
		violate("P13", "record-server", "usage record of %s names server %v", a.remote, r.Fields["server"])
	}
	if c == nil {
		return
	}
	if c.okTap > 0 && r.Fields["auth"] != c.cred.ID {
		violate("P13", "record-client", "usage record of %s names client %v, it was %s", a.remote, r.Fields["auth"], c.cred.ID)
	}
	// what waits behind a full buffer was counted, but not sent
	exact := !c.broken && c.slow == 0 && c.peer.Link.SndBuf == 0 && (c.endHow != "vanish" || c.mo < 50)
	cmp := func(what string, got any, want int) {
		g := num(got)
		if g < int64(want) || exact && g != int64(want) {
			violate("P13", "record-counts", "usage record of %s (c%d) says %d %s, %d were sent", a.remote, c.id, g, what, want)
		}
	}
	cmp("accepted submits", r.Fields["s_mt_num"], c.accepted)
	cmp("reports", r.Fields["s_rpt_num"], c.reportsOut)
	cmp("pushed messages", r.Fields["s_dlv_num"], c.mo)
}

// strict says whether the full service guarantees apply to the connection.
func (c *sconn) strict() bool {
	if c.hostile || c.relogin || c.okTap == 0 || len(c.sents) == 0 {
		return false
	}
	x := c.sents[0]
	return x.kind == wire.Login && x.expect == "ok"
}

// endOf is when the service guarantees of a connection stop: something other
// than the server ended it, or asked for its end.
func (c *sconn) endOf() int64 {
	e := int64(math.MaxInt64)
	for _, t := range []int64{c.clientEnd, c.termSent, c.termRsp} {
		if t > 0 && t < e {
			e = t
		}
	}
	if c.broken {
		e = 0
	}
	return e
}

// waitBound is the longest an answer to one of n waiting requests may take.
func (c *sconn) waitBound(n int) int64 {
	W := int64(max(c.cred.Window, 1))
	rounds := (int64(n)+W-1)/W + 2
	return rounds*(w.p.MaxResp+w.p.Report+1)*ms + 3*sec + c.slow + 4*c.peer.Link.LatMaxUs*1000
}

// settle waits until everything that must be answered is, or its time is up.
func settle() {
	start := simrt.PeekNs()
	for {
		pend := false
		limit := int64(0)
		for _, c := range w.conns {
			if !c.strict() || !c.alive() || c.am.closeEnter > 0 {
				continue
			}
			n, s := 0, 0
			for _, x := range c.sents {
				switch x.kind {
				case wire.Submit, wire.Active, wire.Term:
					s++
					if len(x.resp) == 0 {
						n++
					}
					if x.kind == wire.Submit && len(x.resp) > 0 && x.resp[0].p.Status == 0 && len(x.reports) == 0 && c.proto != wire.SGIP && w.p.Success >= 1 {
						n++
					}
				}
			}
			if n > 0 {
				pend = true
				if b := c.waitBound(s); b > limit {
					limit = b
				}
			}
		}
		if !pend || simrt.PeekNs() > start+limit+2*slack() {
			break
		}
		simrt.SleepNs(50 * ms)
	}
	simrt.SleepNs((w.p.MaxResp+w.p.Report)*ms + 1500*ms)
}

// probeConn logs in with a credential and sends a message.
func probeConn(ci int, submits int, what, props string) *sconn {
	cr := w.cur(ci)
	sp := &speer{Peer: plan.Peer{ID: 1000 + len(w.conns), Cred: ci, Role: "probe"}, cred: cr, gw: gwOf(cr.Proto)}
	c := sp.connect("ok")
	if c == nil {
		return nil
	}
	c.final = true
	if c.okGot == 0 && w.settled(ci) {
		violate(props, "no-new-login", "%s: new login of %s client %s fails (response: %v, closed: %v)", what, cr.Proto, cr.ID, c.loginGot != nil, c.eofAt > 0)
		return c
	}
	if c.okGot == 0 {
		return c
	}
	for i := 0; i < submits; i++ {
		c.sendPart("s")
	}
	c.flush()
	if !c.waitFor(func() bool { return !c.alive() || c.pendingSubmits() == 0 }, c.waitBound(submits)+2*slack()) || c.pendingSubmits() > 0 {
		violate(props, "not-served", "%s: a new session of %s client %s gets no answer to %d of %d submits (closed: %v)", what, cr.Proto, cr.ID, c.pendingSubmits(), submits, c.eofAt > 0)
	}
	return c
}

func (c *sconn) shut() {
	if c != nil && c.alive() {
		c.endHow = "final"
		c.clientEnd = simrt.PeekNs()
		c.sock.Close()
	}
}

// finalProbe: the gateways still accept and serve new sessions.
func finalProbe(when string) {
	if w.p.NoProbe {
		return
	}
	for gi := range w.gws {
		for ci := range w.p.Creds {
			if gwOf(w.p.Creds[ci].Proto) != gi || w.p.Creds[ci].Role != "probe" {
				continue
			}
			c := probeConn(ci, 2, "after the run", "P06,P09,P05,P14")
			c.shut()
		}
	}
	simrt.SleepNs(300 * ms)
}

func checkLeaks() {
	for _, c := range w.conns {
		if a := c.am; a.openEnter > 0 && a.closeExit == 0 {
			violate("P09", "never-released", "c%d %s: the connection ended (%s) but the server never closed its side", c.id, c.proto, c.endHow)
		}
	}
	if w.p.QuietS < 190 {
		return // idle pool workers live for up to two minutes
	}
	now := map[string]int{}
	ex := map[string]string{}
	for _, g := range simrt.Live() {
		now[g.Site]++
		ex[g.Site] = g.Reason
	}
	sites := make([]string, 0, len(now))
	for s := range now {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	for _, s := range sites {
		n := now[s]
		if n > w.baseline[s] {
			violate("P09", "left-goroutine", "%d goroutines started at %s remain (%s) after every connection was closed, %d before", n, s, ex[s], w.baseline[s])
		}
	}
	res.Info["live_end"] = int64(len(simrt.Live()))
}

// relogins: everything that was held is available again.
func relogins() {
	w.phase = "relogin"
	pause := func() {
		simrt.SleepNs(500*ms + stallNs()*2)
	}
	for ci := range w.p.Creds {
		cr := w.cur(ci)
		if cr.Role == "alias" {
			continue
		}
		st := w.gws[gwOf(cr.Proto)]
		n := min(cr.MaxConns, st.Cap, 4)
		var cs []*sconn
		for i := 0; i < n; i++ {
			cs = append(cs, probeConn(ci, 1-i/1*min(i, 1), "after everything was closed", "P02,P03,P09,P11,P24"))
		}
		for _, c := range cs {
			if c != nil && c.okTap > 0 {
				probe("relogin_ok")
			}
			c.shut()
		}
		pause()
	}
	for gi, st := range w.gws {
		if st.Cap > 8 {
			continue
		}
		ci := -1
		for i := range w.p.Creds {
			if gwOf(w.p.Creds[i].Proto) == gi {
				ci = i
			}
		}
		if ci < 0 {
			continue
		}
		var cs []*sconn
		for i := 0; i <= st.Cap; i++ {
			sp := &speer{Peer: plan.Peer{ID: 2000 + i, Cred: ci, Role: "probe"}, cred: w.cur(ci), gw: gi}
			c := sp.connect("none")
			if c == nil {
				break
			}
			c.final = true
			cs = append(cs, c)
			pause()
			if i < st.Cap && (c.eofAt > 0 || c.am.refused) {
				violate("P02,P09", "capacity-lost", "%s: with everything closed only %d of %d connections are admitted", st.Proto, i, st.Cap)
				break
			}
			full := true // none of the others was closed for being idle meanwhile
			for _, x := range cs[:i] {
				full = full && x.am.closeEnter == 0
			}
			if i == st.Cap && full {
				if !c.am.refused {
					violate("P02", "over-cap", "%s: connection %d admitted, cap %d", st.Proto, i+1, st.Cap)
				}
				if !c.waitFor(func() bool { return c.eofAt > 0 }, 3*sec) {
					violate("P02", "refused-open", "%s: a connection over the cap is not closed", st.Proto)
				}
			}
			snapshot(st)
		}
		for _, c := range cs {
			c.shut()
		}
		pause()
	}
	snapshotAll()
}

func evalServer() {
	end := simrt.PeekNs()
	sl := slack()
	counts := map[string]int{}
	for _, r := range journalRecs() {
		counts[fmt.Sprint(r.Fields["remote"])]++
	}
	for _, c := range w.conns {
		a := c.am
		if a.openExit > 0 && !a.refused && a.closeExit > 0 && counts[c.remote] != 1 {
			violate("P13", "record-count", "%d usage records for the session of %s at the end", counts[c.remote], c.remote)
		}
		if a.refused {
			continue
		}
		c.evalLogin(end, sl)
		c.evalService(end, sl)
		c.evalReports(end, sl)
		if w.p.Conf == nil {
			c.evalIdle(end, sl)
		}
		c.evalRate()
		c.pushTimes()
	}
	evalConf(end, sl)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// until is the last instant at which the connection was known to be up.
func (c *sconn) until(end int64) int64 {
	u := min64(end, c.endOf())
	if c.am.closeEnter > 0 {
		u = min64(u, c.am.closeEnter)
	}
	return u
}

func (c *sconn) evalLogin(end, sl int64) {
	if c.hostile || len(c.sents) == 0 || c.sents[0].delivered == 0 {
		return
	}
	x := c.sents[0]
	bound := int64(5*sec) + sl + c.slow
	if x.kind == wire.Login && len(x.resp) == 0 {
		c.judge(x, min64(end, x.delivered+bound), -1)
	}
	closed := func(since int64, why string) {
		e := c.am.closeEnter
		if e == 0 {
			e = end
		}
		stop := int64(math.MaxInt64)
		if c.clientEnd > 0 {
			stop = c.clientEnd
		}
		if c.am.closeEnter == 0 && stop > since+bound && end > since+bound || c.am.closeEnter > 0 && e > since+bound && stop > since+bound {
			violate("P01", "not-closed", "c%d %s: connection stays open after %s", c.id, c.proto, why)
		}
	}
	if x.kind != wire.Login {
		if x.kind == wire.Submit || x.kind == wire.Active || x.kind == wire.Term {
			only := true
			for _, y := range c.sents {
				if y.kind == wire.Login {
					only = false
				}
			}
			if only {
				probe("service_before_login")
				closed(x.delivered, "a "+x.kind+" before login")
			}
		}
		return
	}
	ended := c.clientEnd > 0 && c.clientEnd < x.delivered+bound || c.broken
	if x.expect != "ok" {
		probe("bad_login_" + x.expect)
		if len(x.resp) == 0 {
			if !ended && !w.busyLogins() && c.onlyLogin() {
				violate("P01,P24", "no-login-answer", "c%d %s: login with %s gets no response", c.id, c.proto, x.expect)
			}
			if x.expect != "unsettled" {
				closed(x.delivered, "a login with "+x.expect)
			}
		} else {
			closed(x.resp[0].at, "its failure response")
		}
		return
	}
	if len(x.resp) == 0 && !ended && !w.busyLogins() && c.onlyLogin() {
		violate("P01,P03,P05,P06,P09,P24", "no-login-answer", "c%d %s: correct login of %s gets no response", c.id, c.proto, c.cred.ID)
	}
	if len(x.resp) > 0 && x.resp[0].p.Status != 0 {
		e := c.am.closeEnter
		if e == 0 {
			e = end
		}
		if !ended && e > x.resp[0].at+bound {
			violate("P01,P03", "not-closed", "c%d %s: connection stays open after its failure response", c.id, c.proto)
		}
	}
	// a second login with bad data on a logged-in connection
	if c.relogin && !ended {
		for _, y := range c.sents[1:] {
			if y.kind == wire.Login && y.expect != "ok" && y.delivered > 0 && c.endOf() > y.delivered+bound && end > y.delivered+bound {
				if len(y.resp) == 0 && (c.am.closeEnter == 0 || c.am.closeEnter > y.delivered+bound) {
					violate("P01", "no-login-answer", "c%d %s: second login with %s gets neither a response nor a close", c.id, c.proto, y.expect)
				}
			}
		}
	}
}

// onlyLogin: nothing but the login was sent before its answer was due.
func (c *sconn) onlyLogin() bool {
	return len(c.sents) == 1 || c.sents[1].at > c.sents[0].delivered+sec
}

// busyLogins: more logins at a time than the configured workers may be turned
// away unanswered.
func (w *sworld) busyLogins() bool { return spec.Sched.NumCPU < 3*len(w.p.Peers)+4 }

func (c *sconn) evalService(end, sl int64) {
	if !c.strict() {
		return
	}
	probe("strict_conn")
	until := c.until(end)
	// was it closed for a good reason?
	if c.am.closeEnter > 0 && c.am.closeEnter < c.endOf() && !c.mayClose(sl) {
		violate("P04,P05,P06,P10,P11,P14,P24,P25", "server-closed", "c%d %s: the server closed the logged-in connection of %s without a reason", c.id, c.proto, c.cred.ID)
	}
	// was it told to terminate for a good reason? (the decision lies a little before the request)
	if len(c.srvTerm) > 0 && c.srvTerm[0] < c.endOf() && c.slow == 0 && !c.paused {
		if t := c.srvTerm[0]; !c.mayCloseAt(t, sl) && !c.mayCloseAt(t-500*ms-sl, sl) {
			violate("P10,P11,P24,P25", "told-to-terminate", "c%d %s: the server told the logged-in session of %s to terminate without a reason", c.id, c.proto, c.cred.ID)
		} else {
			probe("terminate_with_reason")
		}
	}
	wait := 0
	for _, x := range c.sents {
		var prop, what string
		switch x.kind {
		case wire.Submit:
			prop, what = "P04,P05,P24,P25", "submit"
		case wire.Active:
			prop, what = "P10,P05", "heartbeat"
		case wire.Term:
			prop, what = "P11,P05", "logout"
		default:
			if x.delivered > 0 && x.kind != wire.Login {
				wait++ // acknowledgements take a slot too
			}
			continue
		}
		if x.delivered == 0 {
			continue
		}
		wait++
		b := c.waitBound(wait) + sl
		u := until
		if x.kind == wire.Term {
			u = end
			if c.clientEnd > 0 {
				u = c.clientEnd
			}
			if c.am.closeEnter > 0 && x.delivered < c.am.closeEnter {
				// an answer was due before the close
				if !c.answeredTerm() && c.am.closeEnter < c.clientEndOr(math.MaxInt64) && !c.mayClose(sl) && c.termRsp == 0 && x == c.first(wire.Term) && !c.broken {
					violate("P11", "no-term-rsp", "c%d %s: the connection was closed without a logout response", c.id, c.proto)
				}
			}
			if len(x.resp) > 0 && x == c.first(wire.Term) && !c.broken {
				e := c.am.closeEnter
				if e == 0 || e > x.resp[0].at+3*sec+sl {
					if u > x.resp[0].at+3*sec+sl {
						violate("P11", "logout-open", "c%d %s: the connection stays open after the logout response", c.id, c.proto)
					}
				} else {
					probe("logout_complete")
				}
			}
			if c.am.closeEnter > 0 {
				u = min64(u, c.am.closeEnter)
			}
		}
		if len(x.resp) == 0 {
			if u > x.delivered+b && !c.broken {
				violate(prop, "unanswered-"+what, "c%d %s: %s %s delivered at %.3fs got no response by %.3fs", c.id, c.proto, what, x.seq, s64(x.delivered), s64(u))
			}
			continue
		}
		if d := x.resp[0].at - x.delivered; d > b && !c.broken {
			violate(prop+",P14", "late-"+what, "c%d %s: %s %s answered after %.3fs", c.id, c.proto, what, x.seq, s64(d))
		}
		if x.kind == wire.Submit && c.peer.Role == "healthy" {
			b := w.p.MaxResp*ms + 500*ms + sl
			if d := x.resp[0].at - x.delivered; d > b {
				violate("P14", "slow-healthy", "c%d %s: a submit on a healthy session was answered after %.3fs, its own processing takes at most %.3fs", c.id, c.proto, s64(d), s64(w.p.MaxResp*ms))
			} else {
				probe("healthy_rtt")
			}
		}
	}
}

// answeredTerm: some logout request of the connection was answered.
func (c *sconn) answeredTerm() bool {
	for _, x := range c.sents {
		if x.kind == wire.Term && len(x.resp) > 0 {
			return true
		}
	}
	return false
}

func s64(n int64) float64 { return float64(n) / 1e9 }

func (c *sconn) clientEndOr(d int64) int64 {
	if c.clientEnd > 0 {
		return c.clientEnd
	}
	return d
}

// lastActivity before t, as the idle rules see it: the latest thing that may
// have counted, or (sure) the latest thing that must have.
func (c *sconn) lastActivity(t int64) int64 {
	l := c.am.openEnter
	for _, x := range c.sents {
		if x.delivered > 0 && x.delivered <= t && x.delivered > l {
			l = x.delivered
		}
	}
	for _, f := range c.tap {
		if f.at <= t && f.at > l {
			switch f.p.Kind {
			case wire.SubmitRsp, wire.Report, wire.LoginRsp, wire.ActiveRsp:
				l = f.at
			}
		}
	}
	return l
}

// sureActivity is the earliest start of the idle time a correct gateway may
// assume at t.
func (c *sconn) sureActivity(t int64) int64 {
	l := c.am.openEnter
	for _, x := range c.sents {
		if x.delivered == 0 || x.delivered > t {
			continue
		}
		counts := false
		switch x.kind {
		case wire.Active, wire.ActiveRsp:
			counts = true
		case wire.Login:
			counts = len(x.resp) > 0 && x.resp[0].p.Status == 0
		case wire.Submit:
			counts = len(x.resp) > 0 && x.resp[0].p.Status == 0 && x.resp[0].at <= t
		}
		if counts && x.delivered > l {
			l = x.delivered
		}
	}
	return l
}

// mayClose: the idle rules allow the close that happened.
func (c *sconn) mayClose(sl int64) bool { return c.mayCloseAt(c.am.closeEnter, sl) }

func (c *sconn) mayCloseAt(t, sl int64) bool {
	if t-c.sureActivity(t) >= w.forceAt(t, sl)-sec-sl {
		return true
	}
	// probes since the last answer, not counting one that crossed the decision on its way
	last := int64(0)
	for _, x := range c.sents {
		if x.kind == wire.ActiveRsp && x.delivered > 0 && x.delivered <= t-c.answerTime(sl) {
			last = x.delivered
		}
	}
	n := 0
	for _, p := range c.probes {
		if p > last && p <= t {
			n++
		}
	}
	return n >= 3
}

// answerTime is how long the server may take to notice an answer to a probe.
func (c *sconn) answerTime(sl int64) int64 {
	return sl + 500*ms + (w.p.MaxResp+w.p.Report)*ms
}

// evalProbes: after three unanswered probes there is no fourth.
func (c *sconn) evalProbes(sl int64) {
	d := c.answerTime(sl)
	if d >= w.p.TickMs*ms {
		return
	}
	for i := 3; i < len(c.probes); i++ {
		answered := false
		for _, x := range c.sents {
			if x.kind == wire.ActiveRsp && x.delivered > 0 && x.delivered+d > c.probes[i-3] && x.delivered <= c.probes[i] {
				answered = true
			}
		}
		if !answered {
			violate("P10", "fourth-probe", "c%d %s: the server sends a fourth probe, at %.3fs, after three that were not answered", c.id, c.proto, s64(c.probes[i]))
			return
		}
		probe("probes_followed")
	}
}

func (c *sconn) evalReports(end, sl int64) {
	if !c.strict() || c.proto == wire.SGIP || w.p.Success < 1 {
		return
	}
	until := c.until(end)
	for i, x := range c.sents {
		if x.kind != wire.Submit || len(x.resp) == 0 || x.resp[0].p.Status != 0 || len(x.reports) > 0 {
			continue
		}
		if until > x.resp[0].at+c.waitBound(i)+w.p.Report*ms+sl {
			violate("P08", "no-report", "c%d %s: accepted message %s got no report", c.id, c.proto, x.resp[0].p.MsgID)
		}
	}
}

func (c *sconn) evalIdle(end, sl int64) {
	a := c.am
	if a.openExit == 0 || c.final {
		return
	}
	tick, force := w.p.TickMs*ms, w.p.ForceMs*ms
	e := a.closeEnter
	if e == 0 {
		e = end
	}
	if c.clientEnd > 0 && c.endHow != "vanish" {
		e = min64(e, c.clientEnd)
	}
	logged := c.strict()
	if !logged && (c.hostile || c.okTap > 0) {
		return
	}
	noticed := c.peer.NoHB || c.endHow == "vanish" || c.paused
	base := c.lastActivity(e)
	idleClose := c.endHow == "" || c.endHow == "vanish"
	// closing in bounded time
	if !logged {
		if b := force + 2*tick + 10*sec + sl; e-base > b {
			violate("P10", "idle-not-closed", "c%d %s: a connection that never logged in is still open after %.1fs without activity (limit %.1fs)", c.id, c.proto, s64(e-base), s64(force))
		} else if a.closeEnter > 0 && idleClose && e-base >= force-sec {
			probe("idle_closed_not_logged_in")
		}
		return
	}
	if c.proto == wire.SGIP {
		if b := force + 2*tick + 10*sec + sl; e-base > b {
			violate("P10", "idle-not-closed", "c%d sgip: session still open after %.1fs without activity (limit %.1fs)", c.id, s64(e-base), s64(force))
		} else if a.closeEnter > 0 && idleClose && e-base >= force-sec {
			probe("idle_closed_sgip")
			c.toldToTerminate()
		}
		return
	}
	if noticed && !w.busyLogins() {
		b := min64(60*sec+6*tick+10*sec, force+2*tick+10*sec) + sl
		if w.p.MO {
			b += 10 * sec
		}
		// work it left behind counts as activity while it lasts, seen or not
		left := 0
		for _, x := range c.sents {
			if x.kind == wire.Submit && x.delivered > 0 && len(x.reports) == 0 {
				left++
			}
		}
		if left > 0 {
			b += c.waitBound(left)
		}
		if e-base > b {
			violate("P10", "dead-not-closed", "c%d %s: peer silent for %.1fs and still connected", c.id, c.proto, s64(e-base))
		} else if a.closeEnter > 0 && idleClose && e-base > 30*sec {
			probe("dead_closed")
			c.toldToTerminate()
		}
	}
	c.evalProbes(sl)
	// probing: no long silence without a probe
	if !w.busyLogins() && force > 70*sec {
		last := c.okTap
		var ts []int64
		for _, x := range c.sents {
			if x.delivered > 0 {
				ts = append(ts, x.delivered)
			}
		}
		for _, f := range c.tap {
			ts = append(ts, f.at)
		}
		ts = append(ts, e)
		sort64(ts)
		for _, t := range ts {
			if t > e || t < last {
				continue
			}
			if t-last > 60*sec+2*tick+5*sec+sl && !c.paused && c.slow == 0 {
				violate("P10", "no-probe", "c%d %s: %.1fs without any traffic and no heartbeat", c.id, c.proto, s64(t-last))
				break
			}
			last = t
		}
	}
}

// toldToTerminate: an idle session hears about it before it is cut.
func (c *sconn) toldToTerminate() {
	if c.slow > 0 || c.paused || c.endHow == "vanish" {
		return
	}
	if len(c.srvTerm) == 0 {
		violate("P10", "no-terminate", "c%d %s: the server cut an idle session without a termination request", c.id, c.proto)
	}
}

// evalRate checks the token bucket.
func (c *sconn) evalRate() {
	if !c.strict() || c.cred.Tput <= 0 || w.p.Success < 1 || c.loose {
		return
	}
	var d, r []float64
	var acc []bool
	for _, x := range c.sents {
		if x.kind != wire.Submit {
			continue
		}
		if x.delivered == 0 || len(x.resp) == 0 {
			break // later decisions are unknown from here on
		}
		d = append(d, s64(x.delivered))
		r = append(r, s64(x.resp[0].at))
		acc = append(acc, x.resp[0].p.Status == 0)
	}
	n := len(d)
	if n == 0 {
		return
	}
	for i := n - 2; i >= 0; i-- { // requests are judged in order
		r[i] = math.Min(r[i], r[i+1])
	}
	W := float64(c.cred.Window)
	R := float64(c.cred.Tput)
	const eps = 0.01
	refused := 0
	for j := 0; j < n; j++ {
		if !acc[j] {
			refused++
			// could the bucket have been empty?
			free := W
			m := 0.0
			for i := j - 1; i >= 0; i-- {
				if !acc[i] {
					continue
				}
				m++
				if f := W - m + R*(d[j]-r[i]); f < free {
					free = f
				}
			}
			if free >= 1+eps {
				violate("P07,P04,P24", "wrongly-refused", "c%d %s: submit %d refused for flow control with at least %.2f permits left (window %d, rate %d/s)", c.id, c.proto, j, free, c.cred.Window, c.cred.Tput)
				return
			}
			continue
		}
		m := 0.0
		for i := j; i >= 0; i-- {
			if !acc[i] {
				continue
			}
			m++
			if m > W+R*(r[j]-d[i])+eps {
				violate("P07,P24", "over-rate", "c%d %s: %d submits accepted within %.3fs (window %d, rate %d/s)", c.id, c.proto, int(m), r[j]-d[i], c.cred.Window, c.cred.Tput)
				return
			}
		}
	}
	probe("rate_checked")
	if w.creds != nil && c.outlived() {
		probe("rate_across_change")
	}
	if refused > 0 {
		probe("rate_refusals")
	}
}

func sort64(t []int64) {
	for i := 1; i < len(t); i++ {
		for j := i; j > 0 && t[j] < t[j-1]; j-- {
			t[j], t[j-1] = t[j-1], t[j]
		}
	}
}
