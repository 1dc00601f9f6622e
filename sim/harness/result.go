package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"plan"
	"simrt"
	"simrt/simnet"

	"github.com/hrygo/log"
	"github.com/panjf2000/gnet/v2"
)

// Violation is one broken property observed in a run.
type Violation struct {
	Prop string `json:"prop"`
	Cls  string `json:"cls"` // short stable class
	Msg  string `json:"msg"`
	AtNs int64  `json:"at_ns"`
}

// Result of a run.
type Result struct {
	Kind       string           `json:"kind"`
	Msg        string           `json:"msg,omitempty"`
	Stats      simrt.Stats      `json:"stats"`
	Violations []Violation      `json:"violations,omitempty"`
	Probes     map[string]int64 `json:"probes"`
	Faults     map[string]int64 `json:"faults"`
	Pairs      []uint64         `json:"pairs,omitempty"`
	Digest     string           `json:"digest"`
	LogTail    []string         `json:"log_tail,omitempty"`
	Info       map[string]int64 `json:"info,omitempty"`
}

var (
	spec   plan.Spec
	res    = Result{Probes: map[string]int64{}, Faults: map[string]int64{}, Info: map[string]int64{}}
	seen   = map[string]int{}
	verb   = os.Getenv("SIM_TRACE") != ""
	dig    = uint64(14695981039346656037)
	ending bool
)

func violate(prop, cls, f string, a ...any) {
	k := prop + "/" + cls
	seen[k]++
	if seen[k] > 3 {
		return
	}
	res.Violations = append(res.Violations, Violation{prop, cls, fmt.Sprintf(f, a...), simrt.PeekNs()})
	if verb {
		trace("VIOLATION %s %s: %s", prop, cls, fmt.Sprintf(f, a...))
	}
}

func probe(k string) { res.Probes[k]++ }

// trace adds to the run's digest and, with SIM_TRACE, prints.
func trace(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		dig = (dig ^ uint64(s[i])) * 1099511628211
	}
	if verb {
		fmt.Fprintf(os.Stderr, "%12.6f %s\n", float64(simrt.PeekNs())/1e9, s)
	}
}

func finish(kind, msg string) {
	if ending {
		return
	}
	ending = true
	res.Kind, res.Msg = kind, msg
	res.Stats = simrt.GetStats()
	for k, v := range simnet.Counts {
		res.Faults[k] += v
	}
	res.Info["max_hold_us"] = gnet.Loops.MaxHoldNs / 1000
	offs := make([]string, 0)
	for k := range gnet.OffLoopCalls {
		offs = append(offs, k)
	}
	sort.Strings(offs)
	for _, k := range offs {
		res.Info["offloop_"+k] = int64(gnet.OffLoopCalls[k])
	}
	res.Pairs = simrt.PairList(400)
	res.Digest = fmt.Sprintf("%016x-%s", dig, res.Stats.Hash)
	if kind != "done" || len(res.Violations) > 0 {
		res.LogTail = log.Last
	}
	b, _ := json.MarshalIndent(&res, "", " ")
	if out := os.Getenv("SIM_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		res.Pairs = nil
		b, _ := json.MarshalIndent(&res, "", " ")
		fmt.Println(string(b))
	}
	os.Exit(0)
}

// crashed classifies the end of the simulated process.
func crashed(kind, msg string) {
	switch kind {
	case "crash", "exit":
		violate("*", kind, "%s", msg)
	case "deadlock", "livelock":
		violate("*", kind, "%s", msg)
	}
	finish(kind, msg)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
