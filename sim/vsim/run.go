package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"plan"
)

type Violation struct {
	Prop string `json:"prop"`
	Cls  string `json:"cls"`
	Msg  string `json:"msg"`
	AtNs int64  `json:"at_ns"`
}

type Stats struct {
	Steps    int64  `json:"steps"`
	Switches int64  `json:"switches"`
	Preempts int64  `json:"preempts"`
	Stalls   int64  `json:"stalls"`
	SimNs    int64  `json:"sim_ns"`
	Hash     string `json:"hash"`
	Pairs    int    `json:"pairs"`
	Gs       int    `json:"goroutines"`
}

type Result struct {
	Kind       string           `json:"kind"`
	Msg        string           `json:"msg,omitempty"`
	Stats      Stats            `json:"stats"`
	Violations []Violation      `json:"violations,omitempty"`
	Probes     map[string]int64 `json:"probes"`
	Faults     map[string]int64 `json:"faults"`
	Pairs      []uint64         `json:"pairs,omitempty"`
	Digest     string           `json:"digest"`
	LogTail    []string         `json:"log_tail,omitempty"`
	Info       map[string]int64 `json:"info,omitempty"`
	wallMs     int64
	trace      string
}

var runSeq int64
var scratch string
var scratchOnce sync.Once

func scratchDir() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp("", "vsim-")
		ck(err, "scratch directory")
		scratch = d
	})
	return scratch
}

func cleanup() {
	if scratch != "" {
		_ = os.RemoveAll(scratch)
	}
}

// runSpec executes one run in its own process.
func runSpec(runner string, spec []byte, limit time.Duration, show bool) *Result {
	return runProc(runner, spec, limit, show, false)
}

// runTraced also collects the run's history.
func runTraced(runner string, spec []byte) *Result {
	return runProc(runner, spec, 3*runLimit, false, true)
}

func bytesReader(b []byte) *bytes.Reader { return bytes.NewReader(b) }

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runProc(runner string, spec []byte, limit time.Duration, show, traced bool) *Result {
	n := atomic.AddInt64(&runSeq, 1)
	sf := filepath.Join(scratchDir(), fmt.Sprintf("s%d.json", n))
	of := filepath.Join(scratchDir(), fmt.Sprintf("o%d.json", n))
	ck(os.WriteFile(sf, spec, 0o644), "spec")
	defer os.Remove(sf)
	defer os.Remove(of)
	cmd := exec.Command(runner)
	cmd.Dir = scratchDir()
	env := []string{"SIM_SPEC=" + sf, "SIM_OUT=" + of, "GOMAXPROCS=2", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=all"}
	for _, k := range []string{"SIM_TRACE", "SIM_LOG"} {
		if v := os.Getenv(k); v != "" && show {
			env = append(env, k+"="+v)
		}
	}
	cmd.Env = env
	var buf strings.Builder
	if show {
		cmd.Stderr = os.Stderr
	} else {
		if traced {
			cmd.Env = append(cmd.Env, "SIM_TRACE=1")
		}
		cmd.Stderr = &buf
	}
	t := time.Now()
	ck(cmd.Start(), "starting the simulator")
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		return &Result{Kind: "watchdog", Msg: "no result within " + limit.String()}
	}
	b, rerr := os.ReadFile(of)
	r := &Result{}
	if rerr != nil || json.Unmarshal(b, r) != nil {
		s := buf.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return &Result{Kind: "harness", Msg: fmt.Sprintf("no result: %v %s", err, s)}
	}
	r.trace = buf.String()
	r.wallMs = time.Since(t).Milliseconds()
	return r
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// each runs f for 0..n-1 on all cores until stop says so.
func each(n int, f func(i int), stop func() bool) {
	var wg sync.WaitGroup
	var next int64 = -1
	var mu sync.Mutex
	var bad any
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = r
					mu.Unlock()
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || stop != nil && stop() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

func (v Violation) of(prop string) bool {
	if v.Prop == "*" {
		return true
	}
	for _, p := range strings.Split(v.Prop, ",") {
		if p == prop {
			return true
		}
	}
	return false
}

// sweep is a development aid: every violation class over a range of seeds.
func sweep(runner, prop string, from uint64, n int) {
	defer cleanup()
	var mu sync.Mutex
	type agg struct {
		n    int
		seed uint64
		msg  string
	}
	cls := map[string]*agg{}
	probes := map[string]int64{}
	kinds := map[string]int{}
	var wall, steps int64
	var slow int64
	var slowSeed uint64
	t := time.Now()
	each(n, func(i int) {
		seed := from + uint64(i)
		b, _ := json.Marshal(plan.Generate(prop, seed))
		r := runSpec(runner, b, 120*time.Second, false)
		mu.Lock()
		defer mu.Unlock()
		kinds[r.Kind]++
		wall += r.wallMs
		steps += r.Stats.Steps
		if r.wallMs > slow {
			slow, slowSeed = r.wallMs, seed
		}
		if r.Kind != "done" && r.Kind != "crash" && r.Kind != "exit" && r.Kind != "deadlock" {
			k := "KIND " + r.Kind
			if cls[k] == nil {
				cls[k] = &agg{seed: seed, msg: r.Msg}
			}
			cls[k].n++
		}
		for _, v := range r.Violations {
			k := v.Prop + " " + v.Cls
			m := v.Msg
			if len(m) > 260 {
				m = m[:260]
			}
			if v.Prop == "*" {
				k += " " + first(m, 120)
			}
			if cls[k] == nil {
				cls[k] = &agg{seed: seed, msg: m}
			}
			cls[k].n++
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
	}, nil)
	var ks []string
	for k := range cls {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return cls[ks[i]].n > cls[ks[j]].n })
	for _, k := range ks {
		fmt.Printf("%5d  %s\n       seed %d: %s\n", cls[k].n, k, cls[k].seed, strings.ReplaceAll(cls[k].msg, "\n", "\n         "))
	}
	ks = ks[:0]
	for k := range probes {
		ks = append(ks, fmt.Sprintf("%s=%d", k, probes[k]))
	}
	sort.Strings(ks)
	fmt.Println(strings.Join(ks, " "))
	fmt.Printf("%d runs in %.1fs wall, mean %d ms, slowest %d ms (seed %d), mean steps %d, kinds %v\n", n, time.Since(t).Seconds(), wall/int64(n), slow, slowSeed, steps/int64(n), kinds)
}

// kill runs n seeds of every property until one of them reports a violation.
func kill(runner string, props []string, from uint64, n int) {
	defer cleanup()
	var mu sync.Mutex
	found := ""
	each(n*len(props), func(i int) {
		p, seed := props[i%len(props)], from+uint64(i/len(props))
		b, _ := json.Marshal(plan.Generate(p, seed))
		r := runSpec(runner, b, 120*time.Second, false)
		mu.Lock()
		defer mu.Unlock()
		for _, v := range r.Violations {
			if v.of(p) && found == "" {
				found = fmt.Sprintf("KILLED %s %d (%s) %s", p, seed, v.Cls, first(v.Msg, 120))
			}
		}
		if found == "" && r.Kind != "done" && r.Kind != "crash" && r.Kind != "exit" && r.Kind != "deadlock" {
			found = fmt.Sprintf("ODD %s %d %s %s", p, seed, r.Kind, first(r.Msg, 100))
		}
	}, func() bool { mu.Lock(); defer mu.Unlock(); return found != "" })
	if found == "" {
		found = "SURVIVED"
	}
	fmt.Println(found)
}

func first(s string, n int) string {
	s = strings.SplitN(s, "\n", 2)[0]
	if len(s) > n {
		s = s[:n]
	}
	return s
}
