package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"

	"plan"
	"simrt"
	"simrt/simsignal"

	em "github.com/hrygo/gosms/event_manager"
	bs "github.com/hrygo/gosms/msc_server"
	sms "github.com/hrygo/gosms/smc_client"
)

// evReg is one registration.
type evReg struct {
	id       int
	key      string
	hook     bool
	beg, end int64
	ok       bool
	parts    int
	runs     int // started
	done     int // completed
	doneAt   int64
	ch       <-chan bool
	signals  int
	reader   bool
	deleted  bool
}

// evOp is one operation of the registry's history, per key.
type evOp struct {
	kind     string // reg, del, run, get
	key      string
	beg, end int64
	id       int // registered, or the one that ran (0: none)
	ok       bool
	who      int
}

type evWorld struct {
	regs    []*evReg
	hist    map[string][]*evOp
	windows [][2]int64 // shutdowns: begin, end (0: not ended)
	ran     map[int][]int
	part    map[int]int
	sum     int64
}

var evPrefix = map[string]string{"": "app_event_", "2": "job_event_", "hook": em.ShutdownHookerPrefix}

func (w *evWorld) key(group, k string) (arg, full string) {
	full = evPrefix[group] + strings.TrimPrefix(k, "+")
	arg = k
	if strings.HasPrefix(k, "+") {
		arg = full
	}
	return
}

func (w *evWorld) events(g *evReg, n int, work int64) (r []em.Event) {
	g.parts = n
	for i := 0; i < n; i++ {
		i := i
		r = append(r, func(args ...any) {
			if i == 0 {
				g.runs++
				trace("run %d %s", g.id, g.key)
				if g.runs > 1 && g.hook {
					violate("P21", "hook-twice", "the shutdown hook %q was run a second time", g.key)
				}
				w.ran[simrt.CurID()] = append(w.ran[simrt.CurID()], g.id)
			} else if w.part[simrt.CurID()] != i {
				violate("P21", "hook-part", "part %d of %q ran out of order", i+1, g.key)
			}
			w.part[simrt.CurID()] = i + 1
			if work > 0 {
				simrt.SleepNs(work * 1000)
			}
			g.done++
			if g.done%n == 0 {
				g.doneAt = simrt.PeekNs()
			}
			if !g.ok && g.end > 0 {
				violate("P21", "refused-ran", "%q: the handler of a registration that had been refused was run", g.key)
			}
		})
	}
	return
}

func (w *evWorld) op(kind, key string, beg, end int64, id int, ok bool, who int) {
	w.hist[key] = append(w.hist[key], &evOp{kind, key, beg, end, id, ok, who})
}

func (w *evWorld) exec(who int, o plan.Op) {
	group := ""
	k := o.K
	if strings.HasSuffix(k, "2") {
		group, k = "2", k[:len(k)-1]
	}
	if k == "hook" {
		group = "hook"
	}
	arg, full := w.key(group, o.S)
	m := em.CreateEventManage(evPrefix[group])
	beg := simrt.NowNs()
	me := simrt.CurID()
	w.ran[me] = nil
	switch k {
	case "sleep":
		simrt.SleepNs(o.A * 1000)
	case "hook":
		g := &evReg{id: len(w.regs) + 1, key: full, hook: true, beg: beg}
		w.regs = append(w.regs, g)
		n := 1
		if o.B == 3 {
			n = 2
		}
		w.sum += int64(n) * o.A * 1000
		evs := w.events(g, n, o.A)
		if o.B > 0 {
			g.ch = em.RegisterShutdownHookerAddChan(arg, evs...)
			g.ok = g.ch != nil
			if g.ok && o.B != 2 {
				g.reader = true
				simrt.GoSys(func() { w.read(g) })
			}
		} else {
			g.ok = em.RegisterShutdownHooker(arg, evs...)
		}
		g.end = simrt.NowNs()
		w.op("reg", full, beg, g.end, g.id, g.ok, who)
	case "reg":
		g := &evReg{id: len(w.regs) + 1, key: full, beg: beg}
		w.regs = append(w.regs, g)
		g.ok = m.Register(arg, w.events(g, int(o.B), o.A)...)
		g.end = simrt.NowNs()
		if o.B == 0 {
			if g.ok {
				violate("P21", "empty-registration", "%q: a registration without any handler succeeded", full)
			}
			return
		}
		w.op("reg", full, beg, g.end, g.id, g.ok, who)
	case "del":
		m.Delete(arg)
		w.op("del", full, beg, simrt.NowNs(), 0, true, who)
	case "get":
		_, ok := m.Get(arg)
		w.op("get", full, beg, simrt.NowNs(), 0, ok, who)
	case "call":
		m.Call(arg)
		w.ranOps(me, full, beg, who)
	case "fuzzy":
		keys := map[string]bool{}
		m.FuzzyCall()
		for k := range w.hist {
			if strings.HasPrefix(k, evPrefix[group]) {
				keys[k] = true
			}
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w.ranOps(me, k, beg, who)
		}
		for _, id := range w.ran[me] {
			if k := w.regs[id-1].key; !strings.HasPrefix(k, evPrefix[group]) {
				violate("P21", "foreign-run", "calling all %q events ran %q", evPrefix[group], k)
			}
		}
	case "shutdown":
		i := len(w.windows)
		w.windows = append(w.windows, [2]int64{beg, 0})
		em.GracefullyShutdown()
		w.windows[i][1] = simrt.NowNs()
		w.afterShutdown(beg, simrt.NowNs())
	}
	trace("%d %s %s", who, o.K, full)
}

// ranOps records which handler of a key a call ran.
func (w *evWorld) ranOps(me int, key string, beg int64, who int) {
	id := 0
	for _, x := range w.ran[me] {
		if w.regs[x-1].key == key {
			if id != 0 {
				violate("P21", "call-twice", "one call of %q ran two handlers", key)
			}
			id = x
		}
	}
	w.op("run", key, beg, simrt.NowNs(), id, true, who)
	if id != 0 {
		if g := w.regs[id-1]; g.done%g.parts != 0 && g.runs*g.parts == g.done {
			violate("P21", "incomplete", "a call of %q returned before its handlers were through", key)
		}
	}
}

func (w *evWorld) read(g *evReg) {
	v, ok := simrt.Recv2(g.ch)
	if !ok || !v {
		violate("P21", "bad-signal", "%q: the cancellation channel delivered %v (open: %v)", g.key, v, ok)
		return
	}
	g.signals++
	if g.done < g.parts {
		violate("P21", "early-signal", "%q: the cancellation channel fired before the hook had completed", g.key)
	}
}

// afterShutdown: every hook registered before it began has run to completion.
func (w *evWorld) afterShutdown(beg, end int64) {
	for _, g := range w.regs {
		if g.hook && g.ok && g.end > 0 && g.end < beg && g.done < g.parts {
			violate("P21", "hook-missed", "the shutdown begun at %d us ended without having run the hook %q registered before it", beg/1000, g.key)
		}
	}
}

func runEvent(ev *plan.Event) {
	w := &evWorld{hist: map[string][]*evOp{}, ran: map[int][]int{}, part: map[int]int{}}
	simrt.Start()
	left := len(ev.Workers)
	for i, wk := range ev.Workers {
		i, wk := i, wk
		simrt.GoSys(func() {
			simrt.SleepNs(wk.StartUs * 1000)
			for _, o := range wk.Ops {
				w.exec(i, o)
			}
			left--
		})
	}
	var sigAt int64 // first signal that was handled
	var lastSig int64
	expect := 0 // client and server wait for signals separately; the first may arrive between their starts
	sigs := map[string]os.Signal{"INT": syscall.SIGINT, "TERM": syscall.SIGTERM, "QUIT": syscall.SIGQUIT}
	for _, sg := range ev.Signals {
		sg := sg
		if t := sg.AtUs * 1000; t > lastSig {
			lastSig = t
		}
		simrt.GoSys(func() {
			simrt.SleepNs(sg.AtUs * 1000)
			at := simrt.PeekNs()
			h := simsignal.Handled(sigs[sg.Name])
			trace("signal %s handled %v", sg.Name, h)
			if !h {
				if sigAt == 0 { // the default action ends the process
					probe("signal_before_handler")
				}
				return
			}
			res.Faults["signal"]++
			if sigAt == 0 {
				sigAt = at
				w.windows = append(w.windows, [2]int64{at, 0})
			}
			if n := simsignal.Registered(sigs[sg.Name]); n > expect {
				expect = n
			}
			simsignal.Deliver(sigs[sg.Name])
		})
	}
	var told [2]int64
	for i, c := range []<-chan struct{}{sms.StatChan(), bs.StatChan()} {
		i, c := i, c
		simrt.GoSys(func() {
			simrt.SleepNs(ev.ListenUs * 1000)
			simrt.Recv2(c)
			told[i] = simrt.PeekNs()
			trace("told %d", i)
			if sigAt == 0 {
				violate("P21", "told-without-signal", "the process was told to stop although no signal had arrived")
				return
			}
			w.afterShutdown(sigAt, told[i])
		})
	}
	slack := func() int64 {
		return 2*sec + 4*w.sum + simrt.GetStats().Stalls*spec.Sched.StallMaxUs*1000
	}
	for simrt.SleepNs(100 * ms); left > 0; simrt.SleepNs(100 * ms) {
		if simrt.PeekNs() > lastSig+20*sec+slack() {
			violate("P21", "stuck", "a registration, call or shutdown has not returned after %d s", simrt.PeekNs()/sec)
			return
		}
	}
	if end := lastSig + ev.ListenUs*1000 + 3*sec; simrt.PeekNs() < end {
		simrt.SleepNs(end - simrt.PeekNs())
	}
	for (told[0] == 0 || told[1] == 0) && (expect > 1 || told[0]+told[1] == 0) && sigAt > 0 && simrt.PeekNs() < lastSig+ev.ListenUs*1000+slack() {
		simrt.SleepNs(100 * ms)
	}
	if sigAt > 0 {
		probe("signal_handled")
		for i, n := range []string{"client", "server"} {
			if told[i] == 0 && (expect > 1 || told[1-i] == 0) {
				violate("P21", "not-told", "a termination signal arrived at %d us, but the %s process has not been told to stop %d ms later", sigAt/1000, n, (simrt.PeekNs()-sigAt)/ms)
			}
		}
	}
	// the hooks
	first := int64(1 << 62)
	for _, x := range w.windows {
		if x[0] < first {
			first = x[0]
		}
	}
	for _, g := range w.regs {
		if !g.hook {
			continue
		}
		switch {
		case !g.ok:
			if g.runs > 0 {
				violate("P21", "refused-ran", "%q: the handler of a registration that had been refused was run", g.key)
			}
		case len(w.windows) == 0 && g.runs > 0:
			violate("P21", "hook-without-shutdown", "the hook %q was run although nothing was shut down", g.key)
		case g.runs > 0:
			probe("hook_run")
			if g.done != g.parts {
				violate("P21", "hook-incomplete", "the hook %q has not been run to completion", g.key)
			}
			if g.ch != nil {
				if !g.reader {
					drainSignal(g)
				}
				simrt.SleepNs(10 * ms)
				if g.signals != 1 {
					violate("P21", "no-signal", "the hook %q has run, but its cancellation channel has delivered %d signals", g.key, g.signals)
				} else {
					probe("cancel_signal")
				}
			}
		}
	}
	// exclusive registration and calls, per key
	var ks []string
	for k := range w.hist {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := w.hist[k]
		if strings.HasPrefix(k, evPrefix["hook"]) {
			n := 0
			for _, o := range h {
				if o.ok {
					n++
				}
			}
			if n != 1 {
				violate("P21", "exclusive", "%d of %d registrations under %q succeeded", n, len(h), k)
			}
			if len(h) > 1 {
				probe("contended_key")
			}
			continue
		}
		if len(h) > 1 {
			probe("registry_history")
		}
		if !evLinear(h) {
			s := ""
			for _, o := range h {
				s += fmt.Sprintf(" [%d-%d ns worker %d: %s id %d %v]", o.beg, o.end, o.who, o.kind, o.id, o.ok)
			}
			violate("P21", "registry", "the operations on %q fit no order:%s", k, s)
		}
	}
}

// drainSignal looks into the channel of a hook nobody reads.
func drainSignal(g *evReg) {
	for simrt.Len(g.ch) > 0 {
		if v, ok := simrt.Recv2(g.ch); !ok || !v {
			return
		}
		g.signals++
	}
}

// evLinear decides whether the operations on one key fit a sequential map
// entry that is set only when it is empty.
func evLinear(h []*evOp) bool {
	if len(h) > 40 {
		return true
	}
	seen := map[string]bool{}
	done := make([]bool, len(h))
	var rec func(left, cur int) bool
	rec = func(left, cur int) bool {
		if left == 0 {
			return true
		}
		key := fmt.Sprint(done, cur)
		if seen[key] {
			return false
		}
		seen[key] = true
		minEnd := int64(1 << 62)
		for i, o := range h {
			if !done[i] && o.end < minEnd {
				minEnd = o.end
			}
		}
		for i, o := range h {
			if done[i] || o.beg > minEnd {
				continue
			}
			n := cur
			switch o.kind {
			case "reg":
				if o.ok != (cur == 0) {
					continue
				}
				if o.ok {
					n = o.id
				}
			case "del":
				n = 0
			case "run":
				if o.id != cur {
					continue
				}
			case "get":
				if o.ok != (cur != 0) {
					continue
				}
			}
			done[i] = true
			if rec(left-1, n) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec(len(h), 0)
}
