package plan

// genGen plans a run of the identifier generators.
func genGen(prop string, seed uint64, r *R) *Spec {
	g := &Gen{}
	s := &Spec{Prop: prop, Seed: seed, Scenario: "gen", Gen: g}
	s.Sched = r.sched(true)
	g.Kind = r.S("sf64", "sf64", "sf64", "sf32", "sf32", "bcd", "bcd", "cycle", "sgip", "init")
	switch { // complete cycles are slow
	case seed%3000 == 1999:
		g.Kind, g.Long = "cycle", true
	case seed%600 == 299:
		g.Kind, g.Long = "bcd", true
	}
	g.TZMin = r.I(0, 0, 480, 480, -300, 330, 765)
	seen := map[string]bool{}
	for i, n := 0, r.I(1, 1, 2, 3); i < n; i++ {
		nd := GenNode{}
		switch g.Kind {
		case "sf64", "init":
			nd.DC, nd.Worker = int64(r.N(8)), int64(r.N(128))
		default:
			nd.DC, nd.Worker = int64(r.N(4)), int64(r.N(8))
		}
		nd.Text = digits(r, 6)
		nd.Num = uint32(r.Range(1, 1<<32-1))
		if r.P(0.5) {
			nd.Num = uint32(3000000000 + r.Range(0, 99999999))
		}
		k := nd.Text
		if g.Kind != "bcd" {
			k = string(rune(nd.DC)) + "/" + string(rune(nd.Worker))
		}
		if !seen[k] {
			g.Nodes = append(g.Nodes, nd)
		}
		seen[k] = true
	}
	if g.Kind == "sgip" || g.Kind == "init" || g.Long {
		g.Nodes = g.Nodes[:1]
	}
	if g.Kind == "init" { // the 32-bit generator has its own, different numbers
		g.Nodes = append(g.Nodes, GenNode{DC: int64(r.N(4)), Worker: int64(r.N(8))})
	}
	cfg := map[string]any{"AppDebug": true, "AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store"}
	cl := clientDefaults()
	b32 := g.Nodes[len(g.Nodes)-1]
	for _, c := range []map[string]any{cfg, cl} {
		c["Snowflake.B64.DC"], c["Snowflake.B64.Worker"] = g.Nodes[0].DC, g.Nodes[0].Worker
		c["Snowflake.B32.DC"], c["Snowflake.B32.Worker"] = b32.DC, b32.Worker
		c["Snowflake.BCD"], c["Snowflake.SGIP"] = g.Nodes[0].Text, g.Nodes[0].Num
	}
	s.Config = map[string]map[string]any{"msc_server": cfg, "msc_client": cl}
	// start of the wall clock: often just before a boundary
	base := int64(1772700000000) + r.Range(0, 300)*86400000 // some day in 2026
	base -= base % 86400000
	base -= int64(g.TZMin) * 60000
	switch r.N(5) {
	case 0:
		s.WallMs = base + 86400000 - r.Range(1, 4000) // local midnight
	case 1:
		s.WallMs = base + r.Range(1, 1430)*60000 - r.Range(0, 3000)
	case 2:
		s.WallMs = base + r.Range(1, 23)*3600000 - r.Range(0, 2000)
	default:
		s.WallMs = base + r.Range(0, 86399999)
	}
	if g.Long {
		s.Sched.Mode, s.Sched.Preempt, s.Sched.StepNs, s.Sched.MaxSteps, s.Sched.StallProb = 0, r.I(0, 50000), 1, 1<<40, 0
		n := int64(1000000)
		if g.Kind == "cycle" {
			n = 1 << 26
		} else {
			s.WallMs = base + r.Range(1, 1400)*60000 + 100
		}
		k := r.I64(1, 3)
		for i := int64(0); i < k; i++ {
			g.Callers = append(g.Callers, GenCaller{Ops: []Op{op("call", n/k, 0)}})
		}
		return s
	}
	unit := int64(1000) // us
	switch g.Kind {
	case "sf32":
		unit = secU
	case "bcd":
		unit = 60 * secU
	}
	span := unit * r.I64(3, 5, 20)
	if g.Kind == "init" {
		span = r.I64(3000, 2*secU)
	}
	for i, n := 0, r.I(1, 2, 2, 3, 4, 8, 16); i < n; i++ {
		c := GenCaller{Node: r.N(len(g.Nodes)), StartUs: r.Range(0, r.I64(1, unit, span))}
		for k := 1 + r.N(5); k > 0; k-- {
			cnt := r.I64(1, 3, 20, 100)
			if r.P(0.15) {
				cnt = r.I64(600, 1500)
			}
			if g.Kind == "sf64" && r.P(0.1) {
				cnt = 5000
			}
			gap := int64(0)
			if r.P(0.4) {
				gap = r.Range(0, r.I64(3, 100, unit/4, unit*2)/4)
				if cnt > 100 {
					gap = r.Range(0, 20)
				}
			}
			c.Ops = append(c.Ops, op("call", cnt, gap), op("sleep", r.Range(0, r.I64(3, unit/2, unit, span)), 0))
		}
		g.Callers = append(g.Callers, c)
	}
	// wall clock trouble; the 24-hour generator must stay within a day
	if r.P(0.8) {
		for k := 1 + r.N(4); k > 0; k-- {
			st := ClockStep{AtUs: r.Range(0, r.I64(unit, span, 2*span))}
			switch r.N(6) {
			case 0:
				st.ByMs = -r.Range(1, 3*unit/1000+2)
			case 1:
				st.ByMs = -r.I64(1, 2, 1000, 1001, 60000, 3600000, 7200000)
			case 2:
				st.ByMs = r.I64(1, 1000, 60000, 3600000)
			case 3:
				st.ByMs = r.Range(1, 3*unit/1000+2)
			case 4:
				st.FreezeUs = r.Range(1, r.I64(2000, unit, 3*unit))
			default:
				st.ByMs = -r.Range(0, r.I64(2, unit/1000+1))
			}
			s.Steps = append(s.Steps, st)
			if st.ByMs < 0 && r.P(0.3) { // and forward again
				s.Steps = append(s.Steps, ClockStep{AtUs: st.AtUs + r.Range(0, 2*unit), ByMs: -st.ByMs})
			}
		}
	}
	return s
}

func digits(r *R, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + r.N(10)))
	}
	return s
}
