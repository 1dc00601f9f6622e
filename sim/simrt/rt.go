// Package simrt is the deterministic simulator core: a token-passing
// scheduler in which exactly one goroutine runs at a time, a virtual clock,
// seeded randomness, channels, timers, panics and process exit.
//
// All code under test is rewritten by simgen so that goroutine creation,
// channel operations, locks, clocks, sockets, files and randomness go through
// this package and its siblings.  One seed is one execution.
package simrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- random

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int64) int64 { // inclusive
	if hi <= lo {
		return lo
	}
	return lo + r.Int63n(hi-lo+1)
}
func (r *Rand) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool   { return p > 0 && r.Float() < p }
func (r *Rand) Pick(xs []int64) int64 { return xs[r.Intn(len(xs))] }

// ---------------------------------------------------------------- options

// SchedOpts are the schedule parameters of a run (part of the replay file).
type SchedOpts struct {
	Seed       uint64  `json:"seed"`       // schedule stream
	Mode       int     `json:"mode"`       // 0 random walk, 1 priorities (PCT-like), 2 run-to-block FIFO
	Preempt    int     `json:"preempt"`    // mean statements between preemptions, 0 = never
	Changes    int     `json:"changes"`    // priority change points in mode 1 (mean distance in preemption points)
	StallProb  float64 `json:"stall_prob"` // probability that a preempted goroutine is stalled
	StallMaxUs int64   `json:"stall_max_us"`
	DiceEdge   float64 `json:"dice_edge"` // chance that a random choice is the first or the last value
	MaxPreempt int64   `json:"max_preempt"` // stop preempting after this many preemptions (-1: no limit); set by the minimiser
	StepNs     int64   `json:"step_ns"`     // cpu cost of one statement
	AppSeed    uint64  `json:"app_seed"`    // math/rand stream of the code under test
	NetSeed    uint64  `json:"net_seed"`    // network stream
	NumCPU     int     `json:"num_cpu"`
	MaxSteps   int64   `json:"max_steps"`
}

var Opt = SchedOpts{Preempt: 50, Changes: 50, MaxPreempt: -1, StepNs: 40, NumCPU: 2, MaxSteps: 200_000_000, Seed: 1, AppSeed: 2, NetSeed: 3}

// SpecJSON is the raw run spec handed to the process (SIM_SPEC file).
var SpecJSON []byte

var (
	schedR = NewRand(1)
	AppR   = NewRand(2)
	NetR   = NewRand(3)
)

// ---------------------------------------------------------------- goroutines

const (
	gRunning = iota
	gRunnable
	gBlocked
	gDead
)

type G struct {
	id     int
	wake   chan struct{}
	fn     func()
	site   string
	parent int
	sys    bool // harness or simulator goroutine: not part of the system under test
	state  uint8
	reason string
	prio   uint64
	since  int64
	spin   int64 // statements since it last blocked
}

// A goroutine of the code under test that runs this long without blocking or
// ending is taken to loop forever; a spinning one burns simulated time faster.
const (
	spinSlow  = 1 << 20
	spinLimit = 12_000_000
)

var (
	cur       *G
	all       []*G // live goroutines in creation order
	runq      []*G
	gseq      int
	budget    int64 = 1 << 62 // statements until the next preemption
	granted   int64 = 1 << 62
	steps     int64
	nowNs     int64 // monotonic virtual time
	wallOff   int64 // wall = wallBase + nowNs + wallOff
	started   bool
	exiting   bool
	noPreempt int

	nSwitch, nPreempt, nStall int64
	hash                      uint64 = 14695981039346656037
	pairs                            = map[uint64]struct{}{}
	lastSite                  uint64
)

// WallBase is 2026-03-05 08:00:00 UTC by default; a scenario may move it.
var WallBase = time.Date(2026, 3, 5, 8, 0, 0, 0, time.UTC).UnixNano()

func mix(v uint64) {
	hash ^= v
	hash *= 1099511628211
}

// MixHash folds harness-visible events into the run's event hash.
func MixHash(v uint64) { mix(v) }
func Hash() uint64     { return hash }

type specHead struct {
	Sched SchedOpts `json:"sched"`
}

func init() {
	time.Local = time.UTC
	debug.SetGCPercent(400)
	if p := os.Getenv("SIM_SPEC"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, "simrt: cannot read spec:", err)
			os.Exit(2)
		}
		SpecJSON = b
		h := specHead{Sched: Opt}
		if err := json.Unmarshal(b, &h); err != nil {
			fmt.Fprintln(os.Stderr, "simrt: bad spec:", err)
			os.Exit(2)
		}
		Opt = h.Sched
	}
	Reseed()
	gseq = 1
	cur = &G{id: 1, wake: make(chan struct{}, 1), site: "main", sys: true, state: gRunning}
	all = append(all, cur)
}

// Reseed (re)starts the random streams from Opt.
func Reseed() {
	schedR = NewRand(Opt.Seed)
	AppR = NewRand(Opt.AppSeed)
	NetR = NewRand(Opt.NetSeed)
	if Opt.NumCPU < 1 {
		Opt.NumCPU = 1
	}
}

// Start arms preemption; before it (package initialisation) goroutines only
// switch when they block.
func Start() {
	started = true
	cur.prio = schedR.U64()
	newBudget()
}

func newBudget() {
	flushTime()
	if !started || Opt.Preempt <= 0 || (Opt.MaxPreempt >= 0 && nPreempt >= Opt.MaxPreempt) {
		granted = 1 << 20 // still account for time and catch runaway loops
	} else {
		m := int64(Opt.Preempt)
		// geometric-like: mix of short and long gaps
		switch schedR.Intn(4) {
		case 0:
			granted = 1 + schedR.Int63n(3)
		default:
			granted = 1 + schedR.Int63n(2*m)
		}
	}
	budget = granted
}

func flushTime() {
	used := granted - budget
	steps += used
	nowNs += used * Opt.StepNs
	granted = budget
	if cur != nil && !cur.sys {
		if cur.spin += used; cur.spin > spinSlow {
			nowNs += used * 100 * Opt.StepNs
			if cur.spin > spinLimit && !exiting {
				Finish("livelock", "a goroutine never stops running: "+cur.site+" now at "+where())
			}
		}
	}
}

// Y is a preemption point, inserted before statements of the code under test.
func Y() {
	budget--
	if budget < 0 {
		slowY()
	}
}

// YB is a preemption point inside boolean expressions.
func YB() bool {
	budget--
	if budget < 0 {
		slowY()
	}
	return true
}

func slowY() {
	if exiting || noPreempt > 0 {
		budget, granted = 1<<20, 1<<20
		return
	}
	active := started && Opt.Preempt > 0 && (Opt.MaxPreempt < 0 || nPreempt < Opt.MaxPreempt)
	newBudget()
	if steps > Opt.MaxSteps {
		Finish("steps", "step limit reached: "+cur.site)
	}
	if !active {
		// long stretch without a blocking operation: let time pass and others run
		if len(runq) > 0 || len(timers) > 0 && timers[0].when <= nowNs {
			yieldTo(true)
		}
		return
	}
	nPreempt++
	pc := callerPC()
	s := mixSite(pc)
	if Opt.StallProb > 0 && schedR.Bool(Opt.StallProb) {
		nStall++
		d := schedR.Range(1, Opt.StallMaxUs) * 1000
		SleepNs(d)
		notePair(s)
		return
	}
	if Opt.Mode == 1 {
		if Opt.Changes > 0 && schedR.Intn(Opt.Changes) == 0 {
			cur.prio = schedR.U64() >> 1
		}
	}
	if Opt.Mode != 2 {
		yieldTo(false)
	}
	notePair(s)
}

// where names the frames of the code under test.
func where() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	out := ""
	for k := 0; k < 3; {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "simrt") && f.Function != "" {
			out += " " + f.Function
			k++
		}
		if !more {
			break
		}
	}
	return strings.TrimSpace(out)
}

func callerPC() uintptr {
	var pcs [2]uintptr
	runtime.Callers(4, pcs[:])
	return pcs[0]
}

func mixSite(pc uintptr) uint64 {
	z := uint64(pc) * 0x9E3779B97F4A7C15
	return z ^ (z >> 29)
}

func notePair(s uint64) {
	if len(pairs) < 1<<16 {
		pairs[s*31+lastSite] = struct{}{}
	}
	lastSite = s
}

// Yield is runtime.Gosched.
func Yield() {
	if exiting {
		return
	}
	flushTime()
	nowNs += 200
	if cur.prio > 0 && Opt.Mode == 1 {
		cur.prio >>= 8 // spinning: let others pass
	}
	yieldTo(true)
}

func yieldTo(force bool) {
	me := cur
	me.state = gRunnable
	var next *G
	fireTimers()
	if force && len(runq) > 0 {
		next = pick()
		runq = append(runq, me)
	} else if force && len(timers) > 0 && len(runq) == 0 {
		// spinning with nothing else to run: let the clock reach the next event
		if d := timers[0].when - nowNs; d > 0 {
			if d > 1000 {
				d = 1000
			}
			nowNs += d
		}
		fireTimers()
		runq = append(runq, me)
		next = pick()
	} else {
		runq = append(runq, me)
		next = pick()
	}
	switchTo(me, next)
}

func pick() *G {
	n := len(runq)
	i := 0
	if n > 1 {
		switch Opt.Mode {
		case 1:
			for j := 1; j < n; j++ {
				if runq[j].prio > runq[i].prio {
					i = j
				}
			}
		case 2:
			i = 0
		default:
			i = schedR.Intn(n)
		}
	}
	g := runq[i]
	if Opt.Mode == 2 {
		copy(runq[i:], runq[i+1:])
	} else {
		runq[i] = runq[n-1]
	}
	runq[n-1] = nil
	runq = runq[:n-1]
	return g
}

func switchTo(me, next *G) {
	next.state = gRunning
	if next == me {
		return
	}
	nSwitch++
	mix(uint64(next.id)<<32 ^ uint64(steps))
	cur = next
	next.wake <- struct{}{}
	if me.state == gDead {
		return
	}
	<-me.wake
}

// block parks the current goroutine until Ready(g) is called.
func block(reason string) {
	if exiting {
		select {}
	}
	me := cur
	me.state = gBlocked
	me.reason = reason
	me.spin = 0
	me.since = nowNs
	flushTime()
	next := findNext()
	switchTo(me, next)
	me.reason = ""
}

func findNext() *G {
	fireTimers()
	for len(runq) == 0 {
		if len(timers) == 0 {
			Finish("deadlock", "no runnable goroutine and no timer")
		}
		if timers[0].when > nowNs {
			nowNs = timers[0].when
		}
		fireTimers()
	}
	return pick()
}

func ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	runq = append(runq, g)
}

// Go starts a goroutine of the system under test (sys is inherited).
func Go(fn func()) {
	g := newG(fn, cur != nil && cur.sys)
	_ = g
	Y()
}

// GoSys starts a simulator or harness goroutine.
func GoSys(fn func()) { newG(fn, true) }

// GoSUT starts a goroutine counted as part of the system under test.
func GoSUT(fn func()) { newG(fn, false) }

func newG(fn func(), sys bool) *G {
	gseq++
	g := &G{id: gseq, wake: make(chan struct{}, 1), fn: fn, state: gRunnable, sys: sys, parent: cur.id}
	g.site = site(3)
	g.prio = schedR.U64() >> 1
	all = append(all, g)
	runq = append(runq, g)
	go run(g)
	return g
}

func site(skip int) string {
	var pcs [6]uintptr
	n := runtime.Callers(skip+1, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "simrt.") {
			return fmt.Sprintf("%s:%d", shortFn(f.Function), f.Line)
		}
		if !more {
			return shortFn(f.Function)
		}
	}
}

func shortFn(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// SetSys marks the current goroutine as harness or system under test.
func SetSys(b bool) { cur.sys = b }

// CurSys reports whether the current goroutine belongs to the harness.
func CurSys() bool { return cur.sys }

func CurID() int { return cur.id }

func run(g *G) {
	<-g.wake
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				crash(r)
			}
			// runtime.Goexit: fall through
		}
		g.state = gDead
		for i, x := range all {
			if x == g {
				all = append(all[:i], all[i+1:]...)
				break
			}
		}
		if exiting {
			return
		}
		flushTime()
		next := findNext()
		switchTo(g, next)
	}()
	g.fn()
	normal = true
}

func crash(r any) {
	st := string(debug.Stack())
	Finish("crash", fmt.Sprintf("panic: %v\ngoroutine created at %s\n%s", r, cur.site, trimStack(st)))
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "simrt.run") || strings.Contains(l, "created by") {
			break
		}
		if strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "/ws/"); i >= 0 {
				l = "\t" + l[i+4:]
			}
			if i := strings.LastIndex(l, " +0x"); i >= 0 {
				l = l[:i]
			}
		} else if i := strings.LastIndexByte(l, '('); i > 0 && strings.HasSuffix(l, ")") {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Fatal is an unrecoverable runtime error (concurrent map access and such).
func Fatal(msg string) {
	st := string(debug.Stack())
	Finish("crash", "fatal error: "+msg+"\ngoroutine created at "+cur.site+"\n"+trimStack("panic("+st))
}

// ProcessExit models os.Exit / log.Fatal in the system under test.
func ProcessExit(code int, why string) {
	Finish("exit", fmt.Sprintf("process exit(%d): %s", code, why))
}

// OnFinish is installed by the harness; it must not block.
var OnFinish func(kind, msg string)

// Finish ends the run.
func Finish(kind, msg string) {
	if exiting {
		select {}
	}
	exiting = true
	flushTime()
	if OnFinish != nil {
		OnFinish(kind, msg)
	} else {
		fmt.Fprintln(os.Stderr, "simrt:", kind, msg)
	}
	os.Exit(3)
}

// GoInfo describes a live goroutine.
type GoInfo struct {
	ID     int
	Site   string
	Reason string
	Since  int64
	Sys    bool
}

// Live lists live goroutines of the system under test.
func Live() []GoInfo {
	var out []GoInfo
	for _, g := range all {
		if !g.sys {
			out = append(out, GoInfo{g.id, g.site, g.reason, g.since, g.sys})
		}
	}
	return out
}

// NumGoroutine counts all live goroutines.
func NumGoroutine() int { return len(all) }

// Stats of the run.
type Stats struct {
	Steps    int64  `json:"steps"`
	Switches int64  `json:"switches"`
	Preempts int64  `json:"preempts"`
	Stalls   int64  `json:"stalls"`
	SimNs    int64  `json:"sim_ns"`
	Hash     string `json:"hash"`
	Pairs    int    `json:"pairs"`
	Gs       int    `json:"goroutines"`
}

func GetStats() Stats {
	return Stats{steps, nSwitch, nPreempt, nStall, nowNs, fmt.Sprintf("%016x", hash), len(pairs), gseq}
}

// PairList returns a bounded, sorted sample of the preemption pairs seen.
func PairList(max int) []uint64 {
	out := make([]uint64, 0, len(pairs))
	for k := range pairs {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > max {
		out = out[:max]
	}
	return out
}

// NoPreempt disables preemption while f runs (harness snapshots).
func NoPreempt(f func()) {
	noPreempt++
	defer func() { noPreempt-- }()
	f()
}

// ---------------------------------------------------------------- clock

type timer struct {
	when int64
	seq  uint64
	idx  int
	fn   func()
}

var (
	timers []*timer
	tseq   uint64
)

// Timer is a scheduled callback; the callback runs in scheduler context and
// must not block.
type Timer = timer

func AddTimer(when int64, fn func()) *Timer {
	tseq++
	t := &timer{when: when, seq: tseq, fn: fn}
	t.idx = len(timers)
	timers = append(timers, t)
	up(t.idx)
	return t
}

// DelTimer reports whether the timer was still pending.
func DelTimer(t *Timer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	i := t.idx
	last := len(timers) - 1
	swapT(i, last)
	timers[last] = nil
	timers = timers[:last]
	t.idx = -1
	if i < last {
		down(i)
		up(i)
	}
	return true
}

func lessT(a, b *timer) bool {
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}
func swapT(i, j int) {
	timers[i], timers[j] = timers[j], timers[i]
	timers[i].idx, timers[j].idx = i, j
}
func up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !lessT(timers[i], timers[p]) {
			return
		}
		swapT(i, p)
		i = p
	}
}
func down(i int) {
	n := len(timers)
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && lessT(timers[c+1], timers[c]) {
			c++
		}
		if !lessT(timers[c], timers[i]) {
			return
		}
		swapT(i, c)
		i = c
	}
}

func fireTimers() {
	for len(timers) > 0 && timers[0].when <= nowNs {
		t := timers[0]
		DelTimer(t)
		t.fn()
	}
}

// NowNs is the monotonic virtual time.
func NowNs() int64 {
	flushTime()
	return nowNs
}

// PeekNs is NowNs without any side effect.
func PeekNs() int64 { return nowNs + (granted-budget)*Opt.StepNs }

// WallNs is the wall clock.
func WallNs() int64 {
	if frozen {
		return frozenAt
	}
	return WallBase + PeekNs() + wallOff
}

var (
	frozen   bool
	frozenAt int64
)

// FreezeWall stops the wall clock, or lets it go on from where it stands.
func FreezeWall(on bool) {
	if on && !frozen {
		frozenAt = WallNs()
		frozen = true
	} else if !on && frozen {
		frozen = false
		wallOff = frozenAt - WallBase - PeekNs()
	}
}

// StepWall moves the wall clock (not the monotonic clock).
func StepWall(d int64) {
	wallOff += d
	frozenAt += d
}

func WallOffset() int64 { return wallOff }

// SleepNs blocks the current goroutine.
func SleepNs(d int64) {
	if d < 0 {
		d = 0
	}
	flushTime()
	me := cur
	AddTimer(nowNs+d, func() { ready(me) })
	block("sleep")
}

// ---------------------------------------------------------------- parking

// WaitQ is a FIFO of parked goroutines.
type WaitQ struct{ q []*wq }
type wq struct {
	g     *G
	woken bool
	dead  bool
}

// Wait parks until Wake; a deadline (absolute, 0 = none) makes it return false.
func (w *WaitQ) Wait(reason string, deadline int64) bool {
	e := &wq{g: cur}
	w.q = append(w.q, e)
	var t *Timer
	if deadline > 0 {
		t = AddTimer(deadline, func() {
			if !e.woken && !e.dead {
				e.dead = true
				ready(e.g)
			}
		})
	}
	block(reason)
	if t != nil {
		DelTimer(t)
	}
	if e.woken {
		return true
	}
	for i, x := range w.q {
		if x == e {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			break
		}
	}
	return false
}

// WakeOne wakes the first waiter.
func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		e := w.q[0]
		w.q = w.q[1:]
		if e.dead {
			continue
		}
		e.woken = true
		ready(e.g)
		return true
	}
	return false
}

// WakeAll wakes all waiters.
func (w *WaitQ) WakeAll() {
	for w.WakeOne() {
	}
}
func (w *WaitQ) Len() int { return len(w.q) }

// ---------------------------------------------------------------- time.Time

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMono        = 1 << 63
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

// TimeNow builds a time.Time with a monotonic reading from the virtual clocks.
func TimeNow() time.Time {
	budget -= 2
	w := WallNs()
	sec, nsec := w/1e9, w%1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	s := sec + unixToInternal - wallToInternal
	if s < 0 || s >= 1<<33 {
		return time.Unix(sec, nsec)
	}
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMono | uint64(s)<<30 | uint64(nsec)
	r.ext = PeekNs() + 1
	r.loc = time.Local
	return t
}

// ---------------------------------------------------------------- helpers for the sim packages

// Slack is the extra delay of a timer.
func Slack() int64 { return 1000 + schedR.Int63n(50_000) }

// Chance is true with probability a/b (schedule stream).
func Chance(a, b int) bool { return schedR.Intn(b) < a }

// Choose picks one of n (schedule stream).
func Choose(n int) int { return schedR.Intn(n) }

// GoAs starts a goroutine with an explicit system flag; usable from timers.
func GoAs(fn func(), sys bool) { newG(fn, sys) }

// Enqueue joins the queue without parking yet.
func (w *WaitQ) Enqueue() *wq {
	e := &wq{g: cur}
	w.q = append(w.q, e)
	return e
}

// Park waits for an Enqueue'd entry to be woken.
func (w *WaitQ) Park(e *wq, reason string) {
	for !e.woken {
		block(reason)
	}
}
