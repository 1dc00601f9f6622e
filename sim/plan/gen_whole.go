package plan

import "fmt"

// genWhole plans a run of the client library against the gateways.
func genWhole(prop string, seed uint64, r *R) *Spec {
	c := &Whole{}
	s := &Spec{Prop: prop, Seed: seed, Scenario: "whole", Whole: c}
	faults := seed%4 != 0
	s.Sched = r.sched(faults)
	c.Loops = r.I(1, 1, 2, 3)
	c.TickMs, c.ForceMs = r.I64(1000, 10_000, 10_000), 300_000
	if r.P(0.2) {
		c.ForceMs = 130_000
	}
	c.MaxResp = r.I64(0, 0, 1, 5, 50, 400)
	if r.P(0.5) {
		c.MinResp = c.MaxResp / 2
	}
	c.Report = r.I64(0, 0, 5, 50, 500)
	c.Success = 1
	if r.P(0.3) {
		c.Success = r.F(0, 0.5, 0.9)
	}
	c.MO, c.MORate = r.P(0.3), r.F(0.2, 1)
	c.ExpireMs, c.CheckMs = r.I64(8000, 20_000, 600_000, 600_000), r.I64(100, 1000)
	trouble := faults && r.P(0.6)
	tight := r.P(0.25) // the gateways limit more than the client does
	c.Strict = !trouble && !tight && c.Success == 1
	ng := r.I(1, 2, 3, 3)
	first := r.N(3)
	for i := 0; i < ng; i++ {
		p := protos[(first+i)%3]
		g := CGW{Cred: r.cred(p, i), Prefix: map[string]string{"cmpp": "139", "smgp": "133", "sgip": "186"}[p]}
		g.Max = r.I(1, 1, 2, 3)
		g.MaxConns = r.I(g.Max, g.Max, 8)
		g.Tps, g.Win, g.TickMs = 5000, 200, r.I64(100, 500, 1000, 3000)
		g.Window, g.Tput = r.I(200, 300), 5000
		if tight && r.P(0.7) {
			g.Window, g.Tput = r.I(1, 2, 16), r.I(1, 5, 20, 100)
		}
		g.Link = r.link(faults && r.P(0.6))
		if r.P(0.25) { // next door
			g.Link.LatMinUs, g.Link.LatMaxUs = 0, 1
		} else if g.Link.Seg == 0 && c.TickMs >= 10_000 && r.P(0.25) { // a far network
			g.Link.LatMinUs, g.Link.LatMaxUs = r.I64(100_000, 1_200_000), r.I64(1_300_000, 2_500_000)
		}
		c.GWs = append(c.GWs, g)
	}
	c.EndMs = r.I64(500, 3000, 20_000)
	if trouble {
		c.EndMs = r.I64(3000, 20_000, 120_000, 400_000)
	}
	at := func() int64 { return r.Range(1, c.EndMs) }
	if trouble {
		for i := range c.GWs {
			g := &c.GWs[i]
			t := at() / 2
			if r.P(0.4) {
				t = c.EndMs
			}
			if r.P(0.1) {
				t = 0
			}
			for k := 1 + r.N(2); k > 0 && t < c.EndMs; k-- {
				ph := CPhase{AtMs: t, ForMs: r.Range(1, r.I64(300, 3000, 30000)), K: r.S("refuse", "hang")}
				ph.ForMs = min(ph.ForMs, c.EndMs-t)
				g.Phases = append(g.Phases, ph)
				t += ph.ForMs + r.Range(1, 4000)
			}
		}
		t := int64(0)
		for k := 1 + r.N(6); k > 0; k-- {
			t += r.Range(1, c.EndMs/3+1)
			if t >= c.EndMs {
				break
			}
			e := CEvent{AtMs: t, GW: r.N(ng), K: r.S("reset", "resetcli", "resetsrv", "hole", "upstall", "downstall"), N: r.N(5) - 1}
			if e.K == "hole" || e.K == "upstall" || e.K == "downstall" {
				e.A = min(r.Range(1, r.I64(2000, 30_000, 400_000)), c.EndMs-t)
			}
			c.Events = append(c.Events, e)
		}
	}
	if r.P(0.5) {
		c.IdleMs = r.I64(65_000, 100_000, 200_000, 400_000)
	}
	if r.P(0.15) {
		c.StopMs = at()
		c.Strict = false
	}
	total := 150
	for _, g := range c.GWs {
		if g.Link.Seg > 0 && g.Link.Seg < 40 || g.Link.ShortRead > 0 || g.Link.CoalUs > 1000 {
			total = 60
		}
	}
	for i := 1 + r.N(4); i > 0; i-- {
		sd := CSender{StartUs: r.Range(0, r.I64(1, 2000, 500_000))}
		gap := r.I64(0, 100, 5000, 100_000, 1_000_000)
		for j := 2 + r.N(10); j > 0; j-- {
			o := Op{K: "send", A: int64(r.N(ng)), B: 1, S: fmt.Sprintf("%s:%d", r.S("a", "a", "c", "m", "e"), r.I(1, 5, 60, 70, 71, 140, 160, 161, 200, 400))}
			if r.P(0.2) {
				o.K, o.B = "sendn", int64(r.I(2, 3, 6))
			}
			var n int
			fmt.Sscanf(o.S[2:], "%d", &n)
			total -= int(o.B) * (n/60 + 1)
			if total < 0 {
				break
			}
			sd.Ops = append(sd.Ops, o)
			if gap > 0 {
				sd.Ops = append(sd.Ops, op("sleep", r.Range(0, gap), 0))
			}
		}
		if trouble && r.P(0.7) {
			for j := range sd.Ops {
				if sd.Ops[j].K == "sleep" {
					sd.Ops[j].A += c.EndMs * 1000 / int64(len(sd.Ops))
				}
			}
		}
		c.Senders = append(c.Senders, sd)
	}
	scfg := map[string]any{
		"AppDebug": true, "AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store",
		"Server.TickDuration": fmt.Sprintf("%dms", c.TickMs), "Server.ForceCloseConnTime": fmt.Sprintf("%dms", c.ForceMs),
		"Server.Mock.SuccessRate": c.Success, "Server.Mock.MinSubmitRespMs": c.MinResp, "Server.Mock.MaxSubmitRespMs": c.MaxResp, "Server.Mock.FixReportRespMs": c.Report,
		"Server.Mock.Delivery.Enable": c.MO, "Server.Mock.Delivery.Rate": c.MORate, "Server.Mock.Delivery.Contents": MOTexts([]string{"0010_,_hello world", "0011_,_TD"}),
		"Logs.CounterDB.LogName": "logs/counter/db.json",
	}
	cfg := map[string]any{"AppDebug": true, "PoolSize": 100, "Cache.expire-time": fmt.Sprintf("%dms", c.ExpireMs), "Cache.expire-check-duration": fmt.Sprintf("%dms", c.CheckMs),
		"AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store"}
	for i, g := range c.GWs {
		scfg["Server."+g.Proto+".Port"] = 10000 + i*10
		scfg["Server."+g.Proto+".Multicore"] = true
		scfg["Server."+g.Proto+".MaxSessions"] = 100
		p := g.Proto + "."
		cfg[p+"client-id"], cfg[p+"address"], cfg[p+"segment"] = g.ID, fmt.Sprintf("127.0.0.1:%d", 10000+i*10), "^"+g.Prefix
		cfg[p+"max-conns"], cfg[p+"mt-window-size"], cfg[p+"throughput"], cfg[p+"tick-duration"] = g.Max, g.Win, g.Tps, fmt.Sprintf("%dms", g.TickMs)
	}
	dc, wk := r.I(1, 3), r.I(1, 17)
	seqKeys(scfg, dc, wk)
	seqKeys(cfg, dc, wk)
	s.Config = map[string]map[string]any{"msc_server": scfg, "msc_client": cfg}
	return s
}
