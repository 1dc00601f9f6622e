package plan

import (
	"fmt"
	"strconv"
	"strings"
)

// CliJunk names what a hostile gateway may send.
var CliJunk = []string{"rand", "len0", "lenbig", "lensmall", "head", "unknown", "trunc", "trunc", "mut", "mut", "login_bad", "login_short", "login_ok", "zero", "half", "bigbody", "unknown_submit", "selfterm"}

var textKinds = []string{"a", "c", "m", "l", "e", "a", "c", "t", "h", "o", "z", "g"}
var textLens = []int{0, 1, 2, 5, 20, 60, 66, 67, 68, 69, 70, 71, 72, 100, 133, 134, 135, 138, 139, 140, 141, 153, 154, 155, 158, 159, 160, 161, 200, 201, 267, 268, 269, 280, 307, 308, 309, 320, 402, 462, 500, 536, 616, 670, 1000, 1340, 1540}

func (r *R) text() string {
	k := r.S(textKinds...)
	n := textLens[r.N(len(textLens))]
	switch {
	case r.P(0.1):
		n = int(r.Range(1, 1200))
	case r.P(0.01):
		n = int(r.I64(4000, 8600, 17080, 17090, 20000, 34160, 34170, 34180, 39270, 39280))
	}
	o := ""
	for _, x := range []string{"r0", "r1", "p", "s", "v", "f", "t", "l", "m"} {
		if r.P(0.06) {
			o += x + "."
		}
	}
	if r.P(0.01) {
		k = "x"
	}
	return fmt.Sprintf("%s:%d:%s", k, n, o)
}

// genClient plans a run of the client library against model gateways.
func genClient(prop string, seed uint64, r *R) *Spec {
	c := &Client{}
	s := &Spec{Prop: prop, Seed: seed, Scenario: "client", Client: c}
	faults := seed%4 != 0
	s.Sched = r.sched(faults)
	c.ExpireMs, c.CheckMs = r.I64(1000, 5000, 20000), r.I64(50, 300, 1000, 4000)
	c.Handler = true
	ng := 1 + r.N(3)
	if (prop == "P17" || prop == "P27") && r.P(0.5) {
		ng = 1
	}
	if prop == "P23" && r.P(0.5) {
		ng = 3
	}
	first := r.N(3)
	for i := 0; i < ng; i++ {
		p := protos[(first+i)%3]
		g := CGW{Cred: r.cred(p, i), Prefix: map[string]string{"cmpp": "139", "smgp": "133", "sgip": "186"}[p]}
		g.Max, g.Tps, g.Win, g.TickMs = r.I(1, 1, 2, 3, 5), r.I(0, 1000, 1000, 5000), r.I(16, 64, 200), r.I64(100, 500, 1000, 3000)
		if prop == "P17" {
			if r.P(0.1) {
				g.Max = 0
			}
			if r.P(0.1) {
				g.Win = 0
			}
			if r.P(0.1) {
				g.TickMs = 0
			}
			g.Tps = r.I(0, 20, 1000)
		}
		g.Link = r.link(faults && r.P(0.6))
		if r.P(0.15) {
			g.Link.LatMinUs, g.Link.LatMaxUs = 0, 0
			g.Link.LatMaxUs = 1
		}
		g.RspMax = r.I64(0, 0, 200, 20_000, 300_000)
		g.RspMin = r.I64(0, g.RspMax/2, g.RspMax)
		g.RptMax = r.I64(0, 1000, 50_000, 800_000)
		g.Reorder = r.P(0.5)
		g.Spec29 = r.P(0.5)
		if r.P(0.4) {
			g.DupRsp, g.DupRpt = r.F(0, 0.1, 0.4), r.F(0, 0.1, 0.4)
		}
		if r.P(0.5) {
			g.FailP = r.F(0, 0.1, 0.5)
		}
		if r.P(0.3) {
			g.NoRsp, g.NoRpt = r.F(0, 0.05, 0.3), r.F(0.1, 0.5)
		}
		if r.P(0.4) {
			g.Unknown, g.Two, g.Other = r.F(0, 0.1, 0.4), r.F(0, 0.3), r.F(0, 0, 0.5)
		}
		if r.P(0.3) {
			g.HBMs = r.I64(50, 500, 3000, 30000)
		}
		if r.P(0.3) {
			g.MOMs = r.I64(50, 500, 3000)
		}
		c.GWs = append(c.GWs, g)
	}
	c.EndMs = r.I64(500, 3000, 10000)
	hostile, trouble, long := false, false, false
	switch prop {
	case "P23":
		c.planP23(s, r)
	case "P15", "P18", "P19":
		trouble = r.P(0.3)
	case "P16":
		hostile, trouble = r.P(0.7), r.P(0.5)
		long = r.P(0.1)
	case "P17":
		trouble = r.P(0.85)
		long = r.P(0.3)
	case "P27":
		hostile, trouble = r.P(0.4), r.P(0.9)
		long = r.P(0.35)
		c.Leaks = true
	}
	if seed%4 == 0 && prop != "P16" && prop != "P17" && prop != "P27" {
		trouble = false
	}
	if trouble {
		c.EndMs = r.I64(3000, 10000, 30000)
	}
	idle := prop == "P16" && r.P(0.06) // heartbeats of both sides
	if idle {
		for i := range c.GWs {
			c.GWs[i].HBMs, c.GWs[i].MOMs = r.I64(60_000, 90_000), 0
		}
		long = true
	}
	if long {
		c.EndMs = r.I64(70_000, 140_000, 400_000)
	}
	at := func() int64 { return r.Range(1, c.EndMs) }
	if trouble {
		for i := range c.GWs {
			g := &c.GWs[i]
			t := int64(0)
			if r.P(0.7) {
				t = at() / 2
			}
			for k := 1 + r.N(3); k > 0 && t < c.EndMs; k-- {
				ph := CPhase{AtMs: t, ForMs: r.Range(1, r.I64(300, 3000, 20000)), K: r.S("down", "down", "hang", "reject", "rejclose", "mute", "drop", "junk", "slow", "partial")}
				if ph.AtMs+ph.ForMs > c.EndMs {
					ph.ForMs = c.EndMs - ph.AtMs
				}
				switch ph.K {
				case "junk":
					ph.S = r.S(CliJunk...)
				case "slow":
					ph.A = r.Range(1, 2500)
				case "partial":
					ph.A = r.Range(0, 36)
				}
				g.Phases = append(g.Phases, ph)
				t += ph.ForMs + r.Range(0, 4000)
			}
			if long && r.P(0.15) {
				g.NoHB = true
			}
		}
		for k := 1 + r.N(6); k > 0; k-- {
			e := CEvent{AtMs: at(), GW: r.N(ng), K: r.S("reset", "close", "vanish", "stall", "partition", "deaf", "term", "reset", "close"), N: r.N(6) - 1, A: r.Range(1, r.I64(50, 2000, 20000))}
			c.Events = append(c.Events, e)
		}
	}
	if hostile {
		for k := 1 + r.N(5); k > 0; k-- {
			c.Events = append(c.Events, CEvent{AtMs: at(), GW: r.N(ng), K: "junk", N: r.N(5) - 1, S: r.S(CliJunk...)})
		}
	}
	if prop == "P27" {
		for i := range c.GWs {
			if g := &c.GWs[i]; g.HBMs > 0 || g.MOMs > 0 {
				g.HBMs, g.MOMs = max(g.HBMs, 3000), r.I64(0, 3000, 20000)
			}
		}
	}
	if prop == "P27" && r.P(0.5) { // the same again and again
		e := CEvent{GW: r.N(ng), K: r.S("reset", "close", "vanish", "deaf", "term"), N: r.N(6) - 1, A: r.Range(1, 2000)}
		for k := 3 + r.N(10); k > 0; k-- {
			e.AtMs = at()
			c.Events = append(c.Events, e)
		}
	}
	// senders
	n := 1 + r.N(5)
	if prop == "P23" {
		n = 0
	}
	if prop == "P16" || prop == "P17" || prop == "P27" {
		n = 1 + r.N(4)
	}
	for i := 0; i < n; i++ {
		sd := CSender{StartUs: r.Range(0, r.I64(1, 2000, 500_000))}
		gap := r.I64(0, 100, 5000, 100_000, 1_000_000)
		for j := 2 + r.N(12); j > 0; j-- {
			o := Op{K: "send", A: int64(r.N(ng)), B: int64(r.N(4)), S: r.text()}
			if prop == "P18" && r.P(0.3) || r.P(0.1) {
				o.K = "sendn"
				o.B = int64(r.I(0, 1, 2, 5, 20, 70))
				o.A = int64(r.N(ng+1) - 1)
			}
			if r.P(0.03) {
				o.K = "nophone"
			}
			if prop != "P19" && r.P(0.6) {
				o.S = fmt.Sprintf("%s:%d:", r.S("a", "c"), r.N(200))
			}
			sd.Ops = append(sd.Ops, o)
			if gap > 0 {
				sd.Ops = append(sd.Ops, op("sleep", r.Range(0, gap), 0))
			}
			if r.P(0.1) {
				sd.Ops = append(sd.Ops, op("query", 0, 0))
			}
		}
		if (trouble || hostile) && r.P(0.7) && !(idle && i > 0) { // spread over the run
			for j := range sd.Ops {
				if sd.Ops[j].K == "sleep" {
					sd.Ops[j].A += c.EndMs * 1000 / int64(len(sd.Ops))
				}
			}
		}
		c.Senders = append(c.Senders, sd)
	}
	c.limitVolume()
	if (prop == "P16" || prop == "P17") && r.P(0.25) {
		c.StopMs = at()
	}
	if prop != "P23" && r.P(0.2) {
		c.Direct = 1 + r.N(3)
	}
	if prop == "P18" {
		c.Handler = r.P(0.85)
		if r.P(0.3) {
			c.SlowMs = r.I64(1, 20, 200)
		}
		c.Mongo = c.Handler && r.P(0.15)
	}
	if long {
		c.ExpireMs = 5000
	}
	cfg := map[string]any{"AppDebug": true, "PoolSize": 100, "Cache.expire-time": fmt.Sprintf("%dms", c.ExpireMs), "Cache.expire-check-duration": fmt.Sprintf("%dms", c.CheckMs),
		"AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store",
		"Mongo.URI": "mongodb://<user>:<passwd>@db/test", "Mongo.ConnectTimeout": "5s", "Mongo.ReadTimeout": "3s", "Mongo.WriteTimeout": "5s", "Mongo.HeartbeatInterval": "60s", "Mongo.MinPoolSize": 1, "Mongo.MaxPoolSize": 4}
	for i, g := range c.GWs {
		p := g.Proto + "."
		cfg[p+"client-id"], cfg[p+"address"], cfg[p+"segment"] = g.ID, fmt.Sprintf("10.0.0.%d:%d", i+1, 7890+i), "^"+g.Prefix
		if g.Segment != "" {
			cfg[p+"segment"] = g.Segment
		}
		if g.Max > 0 {
			cfg[p+"max-conns"] = g.Max
		}
		if g.Win > 0 {
			cfg[p+"mt-window-size"] = g.Win
		}
		if g.Tps > 0 {
			cfg[p+"throughput"] = g.Tps
		}
		if g.TickMs > 0 {
			cfg[p+"tick-duration"] = fmt.Sprintf("%dms", g.TickMs)
		}
	}
	seqKeys(cfg, r.I(1, 3), r.I(1, 17))
	scfg := map[string]any{"AppDebug": true}
	seqKeys(scfg, 1, 17)
	s.Config = map[string]map[string]any{"msc_server": scfg, "msc_client": cfg}
	return s
}

// planP23: sends around the limits, numbers of every operator, steady load.
func (c *Client) planP23(s *Spec, r *R) {
	segs := []string{"^139", "^133", "^186", "^1(3[4-9]|5[0-2]|8[2-4])", "^13", "^(133|153|189)", "^\\d{3}0", "9$", "^(130|186)", ".*", "^86", "^(13", "^[9-0]"}
	odd := r.P(0.6)
	spread := r.P(0.4)
	if spread {
		c.CheckMs = max(c.CheckMs, 1000)
		if r.P(0.8) {
			s.Sched.StallProb = 0
		}
	}
	for i := range c.GWs {
		g := &c.GWs[i]
		if odd && r.P(0.7) {
			g.Segment = r.S(segs...)
		}
		g.Tps, g.Win = r.I(0, 1, 2, 5, 10, 20, 50, 100, 333, 600, 1500), r.I(0, 1, 1, 2, 3, 5, 8, 16)
		g.Max = r.I(1, 1, 2, 3)
		g.HBMs, g.MOMs, g.FailP, g.NoRsp = 0, 0, 0, 0
		if spread {
			g.Tps, g.Win, g.Max = 3000, 64, r.I(2, 2, 3, 4, 5)
			g.TickMs = r.I64(100, 100, 200, 500, 1000)
			if r.P(0.8) {
				g.Link = Link{LatMinUs: 100, LatMaxUs: r.I64(200, 2000)}
			}
		}
	}
	pre := []string{"139", "133", "186", "134", "153", "130", "150", "182", "86139", "1390", "1510"}
	c.EndMs = 1000
	if spread {
		for k := 1 + r.N(2); k > 0; k-- {
			sd := CSender{StartUs: r.Range(0, 500_000)}
			g := r.N(len(c.GWs))
			tick := c.GWs[g].TickMs * 1000
			gap := tick / r.I64(4, 6, 9)
			slow := r.P(0.5)
			end := 12 * tick
			if r.P(0.4) { // a connection is replaced on the way
				x := r.Range(2, r.I64(20, 60)) * tick
				c.Events = append(c.Events, CEvent{AtMs: (int64(c.GWs[g].Max)*1_200_000 + x) / 1000, GW: g, K: r.S("close", "reset"), N: r.N(6)})
				end = x + 2_500_000 + 16*tick
			}
			for t := -int64(c.GWs[g].Max)*1_200_000 - 2*tick; t < end; {
				sd.Ops = append(sd.Ops, Op{K: "send", A: int64(g), B: int64(len(sd.Ops)), S: "a:5:"})
				d := gap/2 + r.Range(0, gap/2)
				if slow && t < -2*tick && d < 300_000 {
					d = 300_000
				}
				sd.Ops = append(sd.Ops, op("sleep", d, 0))
				t += d
			}
			c.Senders = append(c.Senders, sd)
		}
		return
	}
	for k := 1 + r.N(4); k > 0; k-- {
		sd := CSender{StartUs: r.Range(0, r.I64(1, 2000, 500_000))}
		g := c.GWs[r.N(len(c.GWs))]
		per := int64(10_000)
		if g.Tps > 0 {
			per = int64(1_000_000 / g.Tps)
		}
		W := max(g.Win, 1)
		for j := 2 + r.N(8); j > 0; j-- {
			m := 1 + r.N(2*W+4)
			text := fmt.Sprintf("%s:%d::", r.S("a", "c"), r.I(1, 5, 30, 80, 170))
			list := func() string {
				if r.P(0.5) {
					return g.Prefix
				}
				l := []string{}
				for i := 1 + r.N(4); i > 0; i-- {
					l = append(l, pre[r.N(len(pre))])
				}
				return strings.Join(l, ",")
			}
			switch r.N(3) {
			case 0: // one after the other
				l := list()
				for i := 0; i < m; i++ {
					sd.Ops = append(sd.Ops, Op{K: "sendto", B: 1, S: text + l})
				}
			case 1:
				sd.Ops = append(sd.Ops, Op{K: "sendto", B: int64(m), S: text + list()})
			case 2: // just below or above the rate
				l := list()
				for i := 0; i < m; i++ {
					sd.Ops = append(sd.Ops, Op{K: "sendto", B: 1, S: text + l}, op("sleep", per*r.Range(80, 130)/100, 0))
				}
			}
			sd.Ops = append(sd.Ops, op("sleep", min(per*r.Range(0, int64(2*W)), 10_000_000), 0))
		}
		c.Senders = append(c.Senders, sd)
	}
}

// limitVolume keeps what a run sends within what its links carry in a few
// simulated seconds, so that the time bounds judge the client and not the link.
func (c *Client) limitVolume() {
	per, total := 300, 1500
	for _, g := range c.GWs {
		if g.Link.Seg > 0 && g.Link.Seg < 40 || g.Link.ShortRead > 0 || g.Link.CoalUs > 1000 {
			per, total = 100, 300
		}
	}
	for i := range c.Senders {
		for j := range c.Senders[i].Ops {
			o := &c.Senders[i].Ops[j]
			if o.K != "send" && o.K != "sendn" {
				continue
			}
			var kind, rest string
			var n int
			f := strings.SplitN(o.S, ":", 3)
			if len(f) != 3 {
				continue
			}
			kind, rest = f[0], f[2]
			n, _ = strconv.Atoi(f[1])
			parts := n/60 + 1
			if o.K == "sendn" && o.B > 1 && parts*int(o.B) > per {
				o.B = int64(max(1, per/parts))
			}
			cost := parts
			if o.K == "sendn" {
				cost *= int(o.B)
			}
			if cost > total {
				n, cost = 50, max(1, cost/parts)
				o.S = fmt.Sprintf("%s:%d:%s", kind, n, rest)
			}
			total -= min(cost, total)
		}
	}
}
