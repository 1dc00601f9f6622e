package main

import (
	"math"

	"github.com/hrygo/yaml_config"
	"harness/wire"
	"plan"
	"simrt"
)

// Edits of the configuration while the gateways run (P25).

type confEpoch struct {
	from int64
	plan.Conf
}

// grace is the time an edit may take to be noticed.
const grace = sec

func (w *sworld) startConf() {
	if w.p.Conf != nil {
		w.confs = []confEpoch{{0, *w.p.Conf}}
	}
}

func (w *sworld) confOps() {
	for _, o := range w.p.ConfOps {
		if d := o.AtMs*ms - (simrt.PeekNs() - w.credStart); d > 0 {
			simrt.SleepNs(d)
		}
		w.confs = append(w.confs, confEpoch{simrt.PeekNs(), o.Conf})
		kv := map[string]interface{}{}
		for k, v := range o.Conf.Keys() {
			kv[k] = v
		}
		yaml_config.Change("msc_server", kv)
		trace("configuration edited: %+v", o.Conf)
		res.Faults["configuration_edited"]++
	}
}

// confsAt lists what may be in force at some time of a period.
func (w *sworld) confsAt(from, to int64) (l []*confEpoch) {
	for i := range w.confs {
		e := &w.confs[i]
		if e.from <= to && (i == len(w.confs)-1 || w.confs[i+1].from+grace >= from) {
			l = append(l, e)
		}
	}
	return
}

// forceAt is the shortest idle time after which a close at t is in order.
func (w *sworld) forceAt(t, sl int64) int64 {
	if w.p.Conf == nil {
		return w.p.ForceMs * ms
	}
	f := int64(math.MaxInt64)
	for _, e := range w.confsAt(t-3*sec-sl, t) {
		f = min(f, e.ForceMs*ms)
	}
	return f
}

// unlikely: k of n draws of probability p (give or take tol) practically never happens.
func unlikely(k, n int, p, tol float64) bool {
	if n == 0 {
		return false
	}
	q := float64(k) / float64(n)
	if q >= p-tol && q <= p+tol {
		return false
	}
	if q < p {
		p -= tol
	} else {
		p += tol
	}
	p = math.Min(math.Max(p, 0), 1)
	kl := 0.0
	if q > 0 {
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return float64(n)*kl > 32
}

func tolOf(p float64) float64 {
	if p <= 0 || p >= 1 {
		return 0
	}
	return 2e-4
}

func evalConf(end, sl int64) {
	if w.p.Conf == nil {
		return
	}
	for _, c := range w.conns {
		if c.am != nil && !c.am.refused {
			c.confDelays(sl)
			c.confIdle(end, sl)
		}
	}
	edited := len(w.confs) > 1
	for i := range w.confs {
		e := &w.confs[i]
		lo, hi := e.from, end
		tick := e.TickMs * ms
		if i > 0 {
			lo += grace
			// ticks of the old length may have begun
			tick = max(tick, w.confs[i-1].TickMs*ms)
		}
		if i+1 < len(w.confs) {
			hi = w.confs[i+1].from
		}
		n, fail, acc, rep, ticks, push, loose := 0, 0, 0, 0, 0, 0, 0
		for _, c := range w.conns {
			if !c.strict() || c.final || c.broken {
				continue
			}
			until := c.until(end)
			for j, x := range c.sents {
				if x.kind != wire.Submit || !x.ok || x.delivered < lo || len(x.resp) == 0 || x.resp[0].at > hi {
					continue
				}
				n++
				if x.resp[0].p.Status != 0 {
					fail++
					continue
				}
				// the report was decided on about when the response left
				if c.proto == wire.SGIP || x.resp[0].at+sl+100*ms > hi || x.resp[0].at+c.waitBound(j)+e.Report*ms+sl > until {
					continue
				}
				acc++
				if len(x.reports) > 0 {
					rep++
				}
			}
			t, p, l := c.confPushes(e, lo, hi, end, tick, sl)
			ticks, push, loose = ticks+t, push+p, loose+l
		}
		trace("configuration %d: %d submits, %d refused; %d accepted, %d reports; %d ticks, %d pushed", i, n, fail, acc, rep, ticks, push)
		if unlikely(n-fail, n, e.Success, tolOf(e.Success)) {
			violate("P25", "success-share", "of %d submits %d were accepted, the configured success rate is %g (edited: %v)", n, n-fail, e.Success, edited)
		}
		if unlikely(rep, acc, e.Success, tolOf(e.Success)) {
			violate("P25", "report-share", "of %d accepted messages %d got a report, the configured success rate is %g (edited: %v)", acc, rep, e.Success, edited)
		}
		if n >= 50 {
			probe("share_checked")
			if i > 0 {
				probe("share_after_edit")
			}
		}
		if !e.MO || e.MORate <= 0 {
			if push > 0 {
				violate("P25", "push-off", "%d upstream messages although they are off (switch %v, rate %g, edited: %v)", push, e.MO, e.MORate, edited)
			}
			continue
		}
		if 3*len(w.conns) >= spec.Sched.NumCPU || ticks == 0 {
			continue
		}
		// the number of ticks is known give or take a few
		m := max(ticks-loose, 0)
		if k := min(push, m); float64(k) < e.MORate*float64(m) && unlikely(k, m, e.MORate, tolOf(e.MORate)) {
			violate("P25", "push-share", "%d upstream messages in some %d ticks, the configured rate is %g (edited: %v)", push, ticks, e.MORate, edited)
		}
		m = ticks + loose
		if k := min(push, m); float64(k) > e.MORate*float64(m) && unlikely(k, m, e.MORate, tolOf(e.MORate)) {
			violate("P25", "push-share", "%d upstream messages in some %d ticks, the configured rate is %g (edited: %v)", push, ticks, e.MORate, edited)
		}
		if ticks > 20 {
			probe("push_share_checked")
		}
	}
}

// confPushes counts the ticks of a period and the messages pushed in it.
func (c *sconn) confPushes(e *confEpoch, lo, hi, end, tick, sl int64) (ticks, push, loose int) {
	if c.proto == wire.SGIP || c.okTap == 0 || c.slow > 0 {
		return
	}
	hi = min(hi, c.until(end))
	for _, t := range []int64{c.termSent, c.termRsp, c.eofAt} {
		if t > 0 {
			hi = min(hi, t)
		}
	}
	// a push is decided on a little before it is sent
	from := max(lo+2*tick+sl, c.okTap)
	for _, t := range c.pushAt {
		if t >= from && t <= hi {
			push++
		}
	}
	if hi <= from {
		return 0, push, 0
	}
	T := e.TickMs * ms
	ticks = int((hi - from) / T)
	loose = 1 + int(sl/T)
	return
}

// confDelays: responses and reports do not come early, nor, on a connection
// with one message under way, late.
func (c *sconn) confDelays(sl int64) {
	if c.hostile || c.okTap == 0 {
		return
	}
	type span struct {
		lo, hi int64
		n      int
	}
	seen := map[*confEpoch]*span{}
	for _, x := range c.sents {
		if x.kind != wire.Submit || !x.ok || len(x.resp) == 0 {
			continue
		}
		r := x.resp[0]
		es := w.confsAt(x.delivered, r.at)
		lo, hi := int64(math.MaxInt64), int64(0)
		for _, e := range es {
			lo, hi = min(lo, e.MinResp*ms), max(hi, e.MaxResp*ms)
		}
		d := r.at - x.delivered
		if d < lo {
			violate("P25", "early-response", "c%d %s: submit %s is answered after %.3fs, the configured minimum is %.3fs", c.id, c.proto, x.seq, s64(d), s64(lo))
			return
		}
		if c.load == 1 && c.slow == 0 {
			if d > hi+500*ms+sl {
				violate("P25", "late-response", "c%d %s: submit %s, alone on its connection, is answered after %.3fs, the configured maximum is %.3fs", c.id, c.proto, x.seq, s64(d), s64(hi))
				return
			}
			probe("delay_checked")
			if len(es) == 1 {
				s := seen[es[0]]
				if s == nil {
					s = &span{lo: d, hi: d}
					seen[es[0]] = s
				}
				s.lo, s.hi, s.n = min(s.lo, d), max(s.hi, d), s.n+1
			}
		}
		if len(x.reports) > 0 {
			rep := x.reports[0].at
			lo2 := int64(math.MaxInt64)
			for _, e := range w.confsAt(x.delivered, rep) {
				lo2 = min(lo2, e.Report*ms)
			}
			if rep-x.delivered < lo+lo2 {
				violate("P25", "early-report", "c%d %s: the report for submit %s comes %.3fs after it, the configured delays are %.3fs and %.3fs", c.id, c.proto, x.seq, s64(rep-x.delivered), s64(lo), s64(lo2))
				return
			}
			if d := rep - r.at; c.load == 1 && c.slow == 0 {
				hi2 := int64(0)
				for _, e := range w.confsAt(x.delivered, rep) {
					hi2 = max(hi2, e.Report*ms)
				}
				if d > hi2+500*ms+sl {
					violate("P25", "late-report", "c%d %s: the report for submit %s comes %.3fs after its response, the configured delay is %.3fs", c.id, c.proto, x.seq, s64(d), s64(hi2))
					return
				}
			}
		}
	}
	// the delays lie anywhere between the two
	if spec.Sched.DiceEdge > 0 {
		return
	}
	for _, e := range w.confsAt(0, math.MaxInt64) {
		s := seen[e]
		if s == nil || s.n < 45 || (e.MaxResp-e.MinResp)*ms < 40*ms+4*sl {
			continue
		}
		mid := (e.MinResp + e.MaxResp) * ms / 2
		if s.lo > mid+sl+5*ms || s.hi < mid-5*ms {
			violate("P25", "delay-spread", "c%d %s: %d responses take between %.3fs and %.3fs, configured are %.3fs to %.3fs", c.id, c.proto, s.n, s64(s.lo), s64(s.hi), float64(e.MinResp)/1e3, float64(e.MaxResp)/1e3)
			return
		}
		probe("delay_spread_checked")
	}
}

// confIdle: idle connections end when the configured time is over.
func (c *sconn) confIdle(end, sl int64) {
	a := c.am
	if a.openExit == 0 || c.final || c.hostile {
		return
	}
	e := end
	if a.closeEnter > 0 {
		e = min(e, a.closeEnter)
	}
	if c.clientEnd > 0 {
		e = min(e, c.clientEnd)
	}
	base := c.lastActivity(e)
	tick := w.p.TickMs * ms // the longest
	for i := range w.confs {
		k := &w.confs[i]
		d := max(k.from+grace, base+k.ForceMs*ms) + 2*tick + 10*sec + sl
		if i+1 < len(w.confs) && d > w.confs[i+1].from {
			continue
		}
		if d < e {
			violate("P25", "idle-open", "c%d %s: still open %.1fs after its last activity, the configured limit is %.1fs (in force for %.1fs)", c.id, c.proto, s64(e-base), float64(k.ForceMs)/1e3, s64(e-k.from))
			return
		}
	}
	if c.okTap == 0 && a.closeEnter > 0 && (c.clientEnd == 0 || a.closeEnter < c.clientEnd) {
		if f := w.forceAt(a.closeEnter, sl); a.closeEnter-a.openEnter < f-sec-sl {
			violate("P25", "closed-early", "c%d %s: closed %.1fs after it was opened, the configured limit is %.1fs", c.id, c.proto, s64(a.closeEnter-a.openEnter), s64(f))
			return
		}
		probe("idle_closed_as_configured")
	}
}
