package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"time"

	"plan"
	"simrt"
	"simrt/simos"

	"github.com/hrygo/gosms/auth"
	bs "github.com/hrygo/gosms/msc_server"
	"go.mongodb.org/mongo-driver/mongo"
)

// auVer is one valid content a client's entry had in the storage.
type auVer struct {
	v        int
	at, till int64 // till 0: still there
	want     auth.Client
}

type auClient struct {
	plan.Cred
	vers  []*auVer
	known bool
	epoch int // changes so far
	seen  int // newest version a finished lookup has returned
}

type auWorld struct {
	a      *plan.Auth
	cl     []*auClient
	faults [][2]int64
	dir    string
	away   syscall.Errno
}

func (w *auWorld) want(c *auClient, v int) auth.Client {
	x := auth.Client{ISP: c.Proto, ClientId: c.ID, LoginName: c.Name, SharedSecret: fmt.Sprintf("%s-%d", c.Secret, v), Version: byte(c.Ver), NeedReport: 1,
		SmsDisplayNo: fmt.Sprintf("%s%d", c.Display, v), ServiceId: fmt.Sprintf("svc%d", v), DefaultMsgLevel: byte(1 + v%9), MtValidDuration: time.Duration(v+1) * time.Hour,
		MaxConns: v + 1, MtWindowSize: v + 2, Throughput: v + 3, FeeCode: fmt.Sprintf("fee%d", v)}
	return x
}

func auYaml(x auth.Client, secretLast bool) string {
	sec := fmt.Sprintf("shared-secret: \"%s\"\n", x.SharedSecret)
	s := fmt.Sprintf("client-id: \"%s\"\n", x.ClientId)
	if !secretLast {
		s += sec
	}
	s += fmt.Sprintf("login-name: \"%s\"\nversion: %d\nneed-report: 1\nsms-display-no: \"%s\"\nservice-id: \"%s\"\ndefault-msg-level: %d\nfee-terminal-type:\nfee-code: %s\nmax-conns: %d   # number\nmt-window-size: %d\nthroughput: %d\nmt-valid-duration: %s\n",
		x.LoginName, x.Version, x.SmsDisplayNo, x.ServiceId, x.DefaultMsgLevel, x.FeeCode, x.MaxConns, x.MtWindowSize, x.Throughput, x.MtValidDuration)
	if secretLast {
		s += sec
	}
	return s
}

func auDoc(x auth.Client) mongo.Doc {
	return mongo.Doc{"isp": x.ISP, "clientid": x.ClientId, "loginname": x.LoginName, "sharedsecret": x.SharedSecret, "version": int(x.Version), "needreport": 1,
		"smsdisplayno": x.SmsDisplayNo, "serviceid": x.ServiceId, "defaultmsglevel": int(x.DefaultMsgLevel), "feecode": x.FeeCode,
		"maxconns": x.MaxConns, "mtwindowsize": x.MtWindowSize, "throughput": x.Throughput, "mtvalidduration": int64(x.MtValidDuration)}
}

// badYaml is what a spoiled file of the next version might contain: it is
// not YAML, not a client, or lacks the id or the secret.
func badYaml(kind string, x auth.Client) string {
	full := auYaml(x, true)
	switch kind {
	case "empty":
		return ""
	case "blank":
		return "\n\n   \n"
	case "comment":
		return "# to be filled in\n---\n"
	case "malformed":
		return strings.Replace(full, "login-name: \"", "login-name: \"\"x: [", 1)
	case "type":
		return strings.Replace(full, "max-conns: ", "max-conns: many", 1)
	case "nosecret":
		return full[:strings.Index(full, "shared-secret")]
	case "emptysecret":
		return full[:strings.Index(full, "shared-secret")] + "shared-secret:\n"
	case "noid":
		return full[strings.Index(full, "login-name"):]
	case "garbage":
		return "\x00\x01\xff\xfe\x80garbage\x00" + full
	case "list":
		return "- a\n- b\n"
	case "tab":
		return "client-id: 1\n\tshared-secret: 2\n"
	case "dup":
		return full + full
	case "trunc":
		return full[:len(full)/3]
	}
	return ""
}

func badDoc(kind string, x auth.Client) mongo.Doc {
	d := auDoc(x)
	switch kind {
	case "empty":
		return mongo.Doc{}
	case "type":
		d["maxconns"] = "many"
	case "nosecret":
		delete(d, "sharedsecret")
	case "emptysecret":
		d["sharedsecret"] = ""
	case "nulls":
		for k := range d {
			if k != "isp" && k != "clientid" {
				d[k] = nil
			}
		}
	}
	return d
}

const auColl = "smsdb.authenticatedClients"

func (w *auWorld) file(c *auClient) string {
	ext := ".yaml"
	if len(c.ID)%2 == 1 {
		ext = ".yml"
	}
	return w.dir + "/" + c.Proto + "_" + c.ID + ext
}

// setDoc replaces (or, with nil, removes) a client's document.
func (w *auWorld) setDoc(c *auClient, d mongo.Doc) {
	l := append([]mongo.Doc{}, mongo.Store[auColl]...)
	for i := range l {
		if l[i]["#"] == c.ID {
			if d == nil {
				l = append(l[:i], l[i+1:]...)
			} else {
				d["#"] = c.ID
				l[i] = d
			}
			mongo.Store[auColl] = l
			return
		}
	}
	if d != nil {
		d["#"] = c.ID
		l = append(l, d)
	}
	mongo.Store[auColl] = l
}

func (c *auClient) end(now int64) {
	if n := len(c.vers); n > 0 && c.vers[n-1].till == 0 {
		c.vers[n-1].till = now
	}
}

func (w *auWorld) apply(o plan.AuOp, active map[int]*plan.AuOp, id int) {
	now := simrt.PeekNs()
	yaml := w.a.Store == "yaml"
	var c *auClient
	if o.K == "put" || o.K == "bad" || o.K == "rm" {
		c = w.cl[o.C]
		c.epoch++
	}
	trace("op %s %d %s", o.K, o.C, o.S)
	switch o.K {
	case "put":
		x := w.want(c, o.V)
		c.end(now)
		if !yaml {
			w.setDoc(c, auDoc(x))
		} else {
			full := auYaml(x, o.V%2 == 1 || o.S == "inplace")
			if o.S == "inplace" && o.ForMs > 0 {
				res.Faults["torn_file"]++
				simos.Put(w.file(c), []byte(full[:strings.Index(full, "shared-secret: \"")*(id%5)/4]))
				ep := c.epoch
				simrt.GoSys(func() {
					simrt.SleepNs(o.ForMs * ms)
					if c.epoch != ep {
						return // overtaken by a later change
					}
					c.end(simrt.PeekNs())
					c.vers = append(c.vers, &auVer{o.V, simrt.PeekNs(), 0, x})
					simos.Put(w.file(c), []byte(full))
				})
				return
			}
			simos.Put(w.file(c), []byte(full))
		}
		c.vers = append(c.vers, &auVer{o.V, now, 0, x})
	case "bad":
		c.end(now)
		res.Faults["bad_entry_"+o.S]++
		x := w.want(c, 90)
		if yaml {
			simos.Put(w.file(c), []byte(badYaml(o.S, x)))
		} else {
			w.setDoc(c, badDoc(o.S, x))
		}
	case "rm":
		c.end(now)
		res.Faults["entry_removed"]++
		if yaml {
			simos.Delete(w.file(c))
		} else {
			w.setDoc(c, nil)
		}
	case "stray":
		res.Faults["stray_entry"]++
		if !yaml {
			mongo.Store[auColl] = append([]mongo.Doc{badDoc(o.S, auth.Client{ISP: "cmpp", ClientId: "stray"})}, mongo.Store[auColl]...)
			return
		}
		n := w.dir + "/" + o.S
		switch {
		case strings.HasSuffix(n, "/"):
			simos.MkdirNode(n[:len(n)-1])
		case strings.HasSuffix(n, "!"): // listed, but cannot be opened
			simos.Put(n[:len(n)-1], nil)
			w.unreadable(n[:len(n)-1])
		case strings.HasSuffix(n, "="):
			simos.Put(n[:len(n)-1], []byte{0, 1, 2, 0xff})
		default:
			simos.Put(n, []byte(auYaml(w.want(w.cl[0], 80), false)))
		}
	case "dir": // the directory is away for a while
		res.Faults["directory_"+o.S]++
		w.away = map[string]syscall.Errno{"gone": syscall.ENOENT, "file": syscall.ENOTDIR}[o.S]
		simrt.GoSys(func() {
			simrt.SleepNs(o.ForMs * ms)
			w.away = 0
		})
	case "fault":
		active[id] = &o
		simrt.GoSys(func() {
			simrt.SleepNs(o.ForMs * ms)
			delete(active, id)
		})
	}
}

var auDead = map[string]bool{}

func (w *auWorld) unreadable(name string) { auDead[name] = true }

func (w *auWorld) faulty(from, to int64) bool {
	for _, f := range w.faults {
		if f[0] <= to && f[1] >= from {
			return true
		}
	}
	return false
}

func runAuth(a *plan.Auth) {
	w := &auWorld{a: a}
	w.dir = strings.TrimSuffix(bs.ConfigYml.BasePath()+bs.ConfigYml.GetString("AuthClient.YamlFilePath"), "/")
	simos.MkdirNode(w.dir)
	for _, c := range a.Clients {
		w.cl = append(w.cl, &auClient{Cred: c, seen: -1})
	}
	active := map[int]*plan.AuOp{}
	fr := simrt.NewRand(spec.Sched.NetSeed)
	hit := func(kinds ...string) *plan.AuOp {
		var ids []int
		for id := range active {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			for _, k := range kinds {
				if active[id].S == k && fr.Bool(active[id].P) {
					res.Faults["io_"+k]++
					return active[id]
				}
			}
		}
		return nil
	}
	simos.Delay = func(op, name string) int64 {
		if f := hit("slow"); f != nil {
			return f.DelayMs * ms
		}
		return 20_000
	}
	simos.Fault = func(op, name string) (error, int) {
		if w.away != 0 && (op == "readdir" || op == "open" || op == "stat") {
			return w.away, -1
		}
		if auDead[name] && op == "open" {
			return []error{syscall.EACCES, syscall.ENOENT}[len(name)%2], -1
		}
		if hit(op) != nil {
			e := []error{syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.ENOMEM}
			return e[fr.Intn(len(e))], fr.Intn(4) - 1
		}
		if op == "read" {
			if hit("short") != nil {
				return nil, 1 + fr.Intn(60)
			}
		}
		return nil, -1
	}
	mongo.Fault = func(op string) (int64, error) {
		if f := hit("slow" + op); f != nil {
			return f.DelayMs * ms, nil
		}
		if hit(op) != nil {
			return fr.Int63n(1000) * 1000, errors.New("connection(db:27017) socket was unexpectedly closed: EOF")
		}
		return 0, nil
	}
	for _, o := range a.Ops {
		if f := o.AtMs * ms; o.K == "fault" || o.K == "dir" {
			w.faults = append(w.faults, [2]int64{f, f + (o.ForMs+o.DelayMs)*ms})
		}
	}
	ops := append([]plan.AuOp{}, a.Ops...)
	i := 0
	for ; i < len(ops) && ops[i].AtMs == 0 && ops[i].K == "put"; i++ {
		w.apply(ops[i], active, i)
	}
	simrt.Start()
	var st auth.Store
	sut(func() { st = auth.New(bs.ConfigYml) })
	loaded := simrt.PeekNs()
	order := make([]int, 0)
	for ; i < len(ops); i++ {
		order = append(order, i)
	}
	sort.SliceStable(order, func(x, y int) bool { return ops[order[x]].AtMs < ops[order[y]].AtMs })
	done := 0
	simrt.GoSys(func() {
		for _, i := range order {
			if d := ops[i].AtMs*ms - simrt.PeekNs(); d > 0 {
				simrt.SleepNs(d)
			}
			w.apply(ops[i], active, i)
			done++
		}
	})
	end := a.EndMs * ms
	for _, f := range w.faults {
		if f[1] > end {
			end = f[1]
		}
	}
	for _, o := range a.Ops {
		if t := (o.AtMs + o.ForMs + o.DelayMs) * ms; t > end {
			end = t
		}
	}
	stalls := func() int64 { return simrt.GetStats().Stalls * spec.Sched.StallMaxUs * 1000 }
	period := a.ReloadMs*ms + 300*ms
	left := len(a.Readers)
	var endStalls int64
	simrt.GoSys(func() {
		simrt.SleepNs(end - simrt.PeekNs())
		endStalls = stalls()
	})
	for _, rd := range a.Readers {
		rd := rd
		simrt.GoSys(func() {
			k := 0
			for final := false; !final; {
				simrt.SleepNs(rd.GapUs * 1000)
				if end+3*period+endStalls < simrt.PeekNs() {
					final = true
				}
				for j := 0; j < len(w.cl); j++ {
					c := w.cl[(k+j)%len(w.cl)]
					if !final && rd.C >= 0 && c != w.cl[rd.C] {
						continue
					}
					w.lookup(st, c, loaded, period, stalls)
				}
				k++
			}
			left--
		})
	}
	for left > 0 {
		simrt.SleepNs(50 * ms)
		if simrt.PeekNs() > end+20*period+4*stalls()+60*sec {
			violate("P20", "stuck", "a lookup has not returned for a minute")
			return
		}
	}
	for _, c := range w.cl {
		if c.known {
			probe("client_known")
		}
		if len(c.vers) > 1 && c.seen == c.vers[len(c.vers)-1].v {
			probe("change_took_effect")
		}
	}
	for op, n := range simos.Ops {
		res.Info["disk_"+op] = int64(n)
	}
	for op, n := range mongo.Ops {
		res.Info["db_"+op] = int64(n)
	}
}

func (w *auWorld) lookup(st auth.Store, c *auClient, loaded, period int64, stalls func() int64) {
	beg, known, seen, s0 := simrt.PeekNs(), c.known, c.seen, stalls()
	isp := c.Proto
	if beg%3 == 0 {
		isp = strings.ToUpper(isp)
	}
	p := st.FindByCid(isp, c.ID)
	now := simrt.PeekNs()
	if d := now - beg; d > 20*ms+4*(stalls()-s0)+spec.Sched.StallMaxUs*1000*4 {
		violate("P20", "slow-lookup", "looking up %s took %d ms", c.ID, d/ms)
	}
	if p == nil {
		trace("lookup %s nil", c.ID)
		if known {
			violate("P20", "unknown", "client %s was known and has become unknown", c.ID)
			return
		}
		for _, v := range c.vers {
			if v.at == 0 && v.v == 0 && w.a.Store == "yaml" {
				violate("P20", "not-loaded", "client %s is unknown although it was there when the store was first loaded", c.ID)
			}
		}
		w.fresh(c, -1, beg, period, stalls())
		return
	}
	x := *p
	trace("lookup %s %s", c.ID, x.SharedSecret)
	c.known = true
	for _, v := range c.vers {
		if v.want == x && v.at <= now {
			if v.v < seen {
				violate("P20", "older", "client %s: a lookup returned version %d after version %d had been seen", c.ID, v.v, seen)
			}
			if v.v > c.seen {
				c.seen = v.v
			}
			w.fresh(c, v.v, beg, period, stalls())
			return
		}
	}
	violate("P20", "altered", "client %s: the entry %+v is none of the complete entries ever stored", c.ID, x)
}

// fresh: a version that was stored for a whole reload period without any
// storage trouble is in effect.
func (w *auWorld) fresh(c *auClient, got int, beg, period, stall int64) {
	for _, v := range c.vers {
		to := v.at + period + stall
		if v.v > got && to < beg && (v.till == 0 || v.till > to) && !w.faulty(v.at-1*sec, to) {
			violate("P20", "stale", "client %s: version %d was stored at %d ms and stayed, but %d ms later a lookup returned version %d", c.ID, v.v, v.at/ms, (beg-v.at)/ms, got)
			return
		}
	}
}
