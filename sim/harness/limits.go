package main

import (
	"math"
	"sort"

	"simrt"
)

// The send limit of each operator and the use of its connections (P23).

// checkRoutes: every message arrives at the operator of its number.
func (w *cworld) checkRoutes() {
	for _, s := range w.subs {
		if s.conn.junked || len(s.p.Dests) == 0 || s.rec == nil {
			continue
		}
		ph := s.p.Dests[0]
		if g := w.route(ph); g != s.conn.gw {
			o := "none"
			if g != nil {
				o = g.Proto
			}
			violate("P23", "wrong-operator", "a message for %s arrives at the %s gateway, the operator of the number is %s", ph, s.conn.gw.Proto, o)
			return
		}
	}
}

// checkLimits: a token bucket per operator, one token for each number.
func (w *cworld) checkLimits() {
	if w.trouble || w.hostile || w.stopAt > 0 {
		return
	}
	type dec struct {
		d, r float64
		pass bool
		s    *csend
		ph   string
	}
	by := map[*cgw][]dec{}
	for _, s := range w.sends {
		if s.end == 0 || s.end-s.start > w.p.ExpireMs*ms-sec && !s.got {
			return
		}
		if s.invalid || s.end-s.start > 4*sec { // waited for a connection
			return
		}
		cnt := map[string]int{}
		for _, k := range s.recs {
			cnt[k.r.Phone]++
		}
		for i, ph := range s.phones {
			if g := s.gws[i]; g != nil {
				by[g] = append(by[g], dec{s64(s.start), s64(s.end), cnt[ph] > 0, s, ph})
			}
		}
	}
	for _, g := range w.gws {
		l := by[g]
		if len(l) == 0 {
			continue
		}
		W, R := float64(g.burst), 100.0
		if g.Tps > 0 {
			R = float64(g.Tps)
		}
		const eps = 0.01
		// a goroutine held up between reading the clock and taking the token
		// makes the limiter count the time in between twice
		held := R * s64(slack())
		for j, x := range l {
			if x.pass {
				n := 0.0
				for i := j; i >= 0; i-- {
					// everything that was decided between its start and our end
					if l[i].pass {
						n++
					}
					if n > W+R*(x.r-l[i].d)+held+eps && contained(l[i].d, x.r, func(f func(d, r float64)) {
						for _, y := range l {
							if y.pass {
								f(y.d, y.r)
							}
						}
					}) > W+R*(x.r-l[i].d)+held+eps {
						violate("P23", "over-limit", "%s: more than %.0f numbers were sent to within %.3f s (window %.0f, rate %.0f/s)", g.Proto, W+R*(x.r-l[i].d), x.r-l[i].d, W, R)
						return
					}
				}
				continue
			}
			probe("send_over_limit")
			free := W
			for _, y := range l {
				if !y.pass || y.d > x.r {
					continue
				}
				n := 0.0
				for _, z := range l {
					if z.pass && z.r >= y.r && z.d <= x.r {
						n++
					}
				}
				free = math.Min(free, W-n+R*math.Max(0, x.d-y.r))
			}
			if free >= 1+eps {
				violate("P23", "dropped-within-limit", "%s: send %d to %s is dropped with at least %.2f permits left (window %.0f, rate %.0f/s)", g.Proto, x.s.id, x.ph, free, W, R)
				return
			}
		}
		probe("limit_checked")
	}
}

// contained counts the decisions that certainly fell into the interval.
func contained(from, to float64, each func(func(d, r float64))) float64 {
	n := 0.0
	each(func(d, r float64) {
		if d >= from && r <= to {
			n++
		}
	})
	return n
}

// checkSpread: with several good connections and messages all the time, the
// load moves on with every period.
func (w *cworld) checkSpread() {
	for _, e := range w.p.Events {
		if e.K != "close" && e.K != "reset" {
			return
		}
	}
	if w.hostile || w.stopAt > 0 {
		return
	}
	// no single event is delayed by more than the stalls and a part of the work
	st := simrt.GetStats()
	hold := st.Stalls*spec.Sched.StallMaxUs*1000 + st.Steps*spec.Sched.StepNs/20
	for _, g := range w.gws {
		if g.max < 2 || len(g.Phases) > 0 || g.NoHB {
			continue
		}
		var ready int64
		n := 0
		var up []*cconn
		for _, c := range g.conns {
			if c.faultAt > 0 && c.eofAt > 0 { // replaced by another one
				ready = max(ready, c.eofAt)
				continue
			}
			if c.faultAt > 0 || c.eofAt > 0 || c.okOut == nil || c.okOut.delivered == 0 {
				n = -1000
			}
			n++
			up = append(up, c)
			if c.okOut != nil && c.okOut.delivered > ready {
				ready = c.okOut.delivered
			}
		}
		if n != g.max || hold > g.tickNs/2 {
			continue
		}
		var subs []*csub
		for _, s := range w.subs {
			if s.conn.gw == g && s.at > ready+2*g.tickNs+1200*ms+slack() {
				subs = append(subs, s)
			}
		}
		sort.SliceStable(subs, func(i, j int) bool { return subs[i].at < subs[j].at })
		lag := hold + spike(g) + 10*ms
		for i := 0; i < len(subs); {
			// a stretch with a message in each half period at least
			j := i
			for j+1 < len(subs) && subs[j+1].at-subs[j].at < g.tickNs/2-lag {
				j++
			}
			if last := subs[j].at - subs[i].at; last > 4*g.tickNs+lag {
				since := map[*cconn]int64{}
				cur, from := subs[i].conn, subs[i].at
				for k := i; k <= j; k++ {
					s := subs[k]
					if s.conn != cur {
						cur, from = s.conn, s.at
					}
					if s.at-from > 3*g.tickNs+lag {
						violate("P23", "one-sided", "%s: c%d alone carries all messages for %.3f s although %d connections are up (period %.3f s)", g.Proto, cur.id, float64(s.at-from)/1e9, n, float64(g.tickNs)/1e9)
						return
					}
					since[s.conn] = s.at
				}
				probe("spread_checked")
				if last > int64(g.max+3)*g.tickNs+lag {
					for _, c := range up {
						if since[c] == 0 {
							violate("P23", "unused", "%s: c%d carries none of the %d messages within %.3f s (%d connections, period %.3f s)", g.Proto, c.id, j-i+1, float64(last)/1e9, n, float64(g.tickNs)/1e9)
							return
						}
					}
					probe("all_used")
				}
			}
			i = j + 1
		}
	}
}
