package plan

import (
	"fmt"
	"sort"
)

var AuBadYaml = []string{"empty", "comment", "malformed", "type", "nosecret", "emptysecret", "noid", "garbage", "list", "tab", "dup", "trunc", "blank"}
var AuBadDoc = []string{"empty", "type", "nosecret", "emptysecret", "nulls"}
var AuStray = []string{"a.yaml", "x.yml", ".yaml", ".yml", "cmpp.yaml", "README.md", "notes", "smgp_.yaml", "_1.yaml", "dir.yaml/", "sub/", "cmpp_zz.yaml~", "sgip_dangling.yaml!", "gone.yaml!", "ab.yaml=", "cmpp_empty.yaml=", "Z.YAML", "cmpp_bin.yml=", "\u4e2d.yaml"}

// genAuth plans a run of a credential store.
func genAuth(prop string, seed uint64, r *R) *Spec {
	a := &Auth{Store: r.S("yaml", "yaml", "mongo")}
	s := &Spec{Prop: prop, Seed: seed, Scenario: "auth", Auth: a}
	s.Sched = r.sched(seed%4 != 0)
	a.ReloadMs = r.I64(200, 1000, 5000)
	a.TimeoutMs = r.I64(100, 1000, 3000)
	n := 1 + r.N(5)
	for i := 0; i < n; i++ {
		c := r.cred(protos[r.N(3)], i)
		a.Clients = append(a.Clients, c)
	}
	a.EndMs = a.ReloadMs * r.Range(2, 12)
	ver := make([]int, n)
	t := func() int64 { return r.Range(1, a.EndMs) }
	var ch []AuOp
	for i := range a.Clients {
		if i == 0 || r.P(0.8) {
			a.Ops = append(a.Ops, AuOp{AtMs: 0, K: "put", C: i, V: 0})
		} else { // appears later
			ch = append(ch, AuOp{AtMs: t(), K: "put", C: i})
			ver[i] = -1
		}
	}
	for k := r.N(8); k > 0; k-- {
		o := AuOp{AtMs: t(), C: r.N(n)}
		switch r.N(6) {
		case 0, 1, 2:
			o.K = "put"
			if a.Store == "yaml" && r.P(0.3) {
				o.S = "inplace" // truncated first, complete a little later
				o.ForMs = r.Range(0, r.I64(5, 500, 2*a.ReloadMs))
			}
		case 3, 4:
			o.K = "bad"
			if a.Store == "yaml" {
				o.S = r.S(AuBadYaml...)
			} else {
				o.S = r.S(AuBadDoc...)
			}
		default:
			o.K = "rm"
		}
		ch = append(ch, o)
	}
	sort.SliceStable(ch, func(i, j int) bool { return ch[i].AtMs < ch[j].AtMs })
	for i := range ch {
		if ch[i].K == "put" {
			ver[ch[i].C]++
			ch[i].V = ver[ch[i].C]
		}
	}
	a.Ops = append(a.Ops, ch...)
	for k := r.N(3); k > 0; k-- {
		if a.Store == "yaml" {
			a.Ops = append(a.Ops, AuOp{AtMs: t(), K: "stray", S: r.S(AuStray...)})
		} else {
			a.Ops = append(a.Ops, AuOp{AtMs: t(), K: "stray", S: r.S(AuBadDoc...)})
		}
	}
	for k := r.N(4); k > 0; k-- { // trouble
		o := AuOp{AtMs: t(), K: "fault", ForMs: r.Range(1, r.I64(a.ReloadMs, 3*a.ReloadMs)), P: r.F(0.1, 0.5, 1)}
		if a.Store == "yaml" {
			o.S = r.S("readdir", "open", "read", "stat", "readdir", "open", "read", "slow", "short")
		} else {
			o.S = r.S("find", "next", "decode", "find", "next", "slowfind", "slownext", "ping")
		}
		if o.S == "slow" || o.S == "slowfind" || o.S == "slownext" {
			o.DelayMs = r.Range(1, r.I64(20, 500, 2*a.TimeoutMs))
		}
		a.Ops = append(a.Ops, o)
	}
	if a.Store == "yaml" && r.P(0.25) {
		a.Ops = append(a.Ops, AuOp{AtMs: t(), K: "dir", S: r.S("gone", "file"), ForMs: r.Range(1, 3*a.ReloadMs)})
	}
	for k := 1 + r.N(4); k > 0; k-- {
		a.Readers = append(a.Readers, AuReader{GapUs: r.Range(1, r.I64(100, 5000, 100000)), C: r.N(n+1) - 1})
	}
	for i := range a.Readers { // at most some hundred lookups each
		if m := a.EndMs * 2; a.Readers[i].GapUs < m {
			a.Readers[i].GapUs = m + r.Range(0, m)
		}
	}
	cfg := map[string]any{"AppDebug": true, "AuthClient.StoreType": a.Store, "AuthClient.ReloadTicker": fmt.Sprintf("%dms", a.ReloadMs), "AuthClient.YamlFilePath": r.S("config/yml_store", "config/yml_store/"),
		"Mongo.URI": "mongodb://<user>:<passwd>@db/test", "Mongo.ConnectTimeout": "5s", "Mongo.ReadTimeout": fmt.Sprintf("%dms", a.TimeoutMs), "Mongo.WriteTimeout": "5s", "Mongo.HeartbeatInterval": "60s", "Mongo.MinPoolSize": 1, "Mongo.MaxPoolSize": 4}
	seqKeys(cfg, 1, 17)
	s.Config = map[string]map[string]any{"msc_server": cfg, "msc_client": clientDefaults()}
	return s
}
