package plan

import "fmt"

// genEvent plans a run of the event registry and the shutdown path.
func genEvent(prop string, seed uint64, r *R) *Spec {
	ev := &Event{}
	s := &Spec{Prop: prop, Seed: seed, Scenario: "event", Event: ev}
	s.Sched = r.sched(seed%4 != 0)
	cfg := map[string]any{"AppDebug": true, "AuthClient.StoreType": "yaml", "AuthClient.ReloadTicker": "24h", "AuthClient.YamlFilePath": "config/yml_store"}
	seqKeys(cfg, 1, 17)
	s.Config = map[string]map[string]any{"msc_server": cfg, "msc_client": clientDefaults()}
	span := r.I64(20, 200, 3000, 100000)
	keys := make([]string, 1+r.N(4))
	for i := range keys {
		keys[i] = fmt.Sprintf("k%d", i)
	}
	key := func() string {
		k := keys[r.N(len(keys))]
		if r.P(0.2) { // the prefix may be given or not
			k = "+" + k
		}
		return k
	}
	work := func() int64 {
		if r.P(0.5) {
			return 0
		}
		return r.Range(1, r.I64(10, 1000, 50000))
	}
	registry, shutdown := true, true
	switch r.N(4) {
	case 0:
		registry = false
	case 1:
		shutdown = false
	}
	if r.P(0.4) {
		s.Sched.Mode, s.Sched.Preempt = 0, r.I(3, 6, 15)
	}
	storm := r.P(0.4) // everybody registers the same name at once
	races := r.P(0.7) // registrations race for the same keys
	for i, n := 0, r.I(2, 2, 3, 4, 8); i < n; i++ {
		w := EvWorker{StartUs: r.Range(0, r.I64(1, 5, span))}
		if storm {
			w.StartUs = 3
			if shutdown && (!registry || r.P(0.5)) {
				w.Ops = append(w.Ops, Op{K: "hook", S: "k0", A: work(), B: int64(r.I(0, 1))})
			} else {
				w.Ops = append(w.Ops, Op{K: "reg", S: "k0", A: work() / 4, B: 1})
			}
		}
		for k := 1 + r.N(4); k > 0; k-- {
			var o Op
			if shutdown && (!registry || r.P(0.6)) {
				switch r.N(8) {
				case 0:
					o = op("shutdown", 0, 0)
				case 1:
					o = op("sleep", r.Range(0, span), 0)
				default:
					o = Op{K: "hook", S: key(), A: work(), B: int64(r.I(0, 0, 1, 2, 3))}
					if !races {
						o.S = fmt.Sprintf("w%d_%d", i, k)
					}
				}
			} else {
				switch r.N(10) {
				case 0, 1, 2, 3:
					o = Op{K: "reg", S: key(), A: work() / 4, B: int64(r.I(1, 1, 2, 0))}
				case 4:
					o = Op{K: "del", S: key()}
				case 5, 6:
					o = Op{K: "call", S: key()}
				case 7:
					o = Op{K: "get", S: key()}
				case 8:
					o = Op{K: "fuzzy"}
				case 9:
					o = op("sleep", r.Range(0, span), 0)
				}
				o.K += r.S("", "", "2") // two independent groups
			}
			w.Ops = append(w.Ops, o)
		}
		ev.Workers = append(ev.Workers, w)
	}
	if shutdown && r.P(0.7) {
		for k := r.I(1, 1, 1, 2, 3); k > 0; k-- {
			ev.Signals = append(ev.Signals, EvSignal{AtUs: r.Range(0, r.I64(10, 100, span, 2*span+100000)), Name: r.S("INT", "TERM", "QUIT")})
		}
		if len(ev.Signals) > 1 && r.P(0.5) { // one more much later
			ev.Signals[0].AtUs += 2 * secU
		}
	}
	ev.ListenUs = r.I64(0, 0, 0, 1000, 500000)
	if r.P(0.1) {
		ev.ListenUs = 10 * secU
	}
	return s
}
