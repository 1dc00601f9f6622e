package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"plan"
)

// budget of a tier: the quick tier runs a fixed number of seeds (a wall limit
// only guards against a slow machine), the thorough tier fills its time.
type budget struct {
	runs  int
	wall  time.Duration
	rerun int // determinism sample
}

func budgetOf(prop, tier string) budget {
	if tier == "thorough" {
		return budget{1 << 30, 720 * time.Second, 200}
	}
	n := quickRuns[prop]
	if n == 0 {
		n = 2000
	}
	return budget{n, 300 * time.Second, 24}
}

// finding is one line of known-findings.txt: a genuine defect that is recorded
// and not repaired.
type finding struct{ prop, cls, match, text string }

func findings() []finding {
	var r []finding
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding:"), "|")
		f := finding{text: strings.TrimSpace(text)}
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				f.prop = v
			case "cls":
				f.cls = v
			case "match":
				f.match = strings.ReplaceAll(v, "~", " ")
			}
		}
		if f.prop != "" && f.cls != "" && f.match != "" {
			r = append(r, f)
		}
	}
	return r
}

func (f finding) covers(prop string, v Violation) bool {
	return f.prop == prop && f.cls == v.Cls && strings.Contains(v.Msg, f.match)
}

type hit struct {
	seed uint64
	v    Violation
	res  *Result
}

type tally struct {
	mu       sync.Mutex
	runs     int
	faultyR  int
	kinds    map[string]int
	probes   map[string]int64
	hitRuns  map[string]int64 // runs in which a probe fired
	faults   map[string]int64
	digests  map[string]struct{}
	nontriv  map[string]struct{}
	pairs    map[uint64]struct{}
	steps    int64
	switches int64
	preempts int64
	stalls   int64
	simNs    int64
	maxGs    int
	hits     []hit
	known    map[int]int
	trouble  []string
	samples  []any
	byDigest map[uint64]string
}

// run executes one seed and records what it covered.
func (t *tally) add(prop string, seed uint64, r *Result, fs []finding) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.kinds[r.Kind]++
	switch r.Kind {
	case "watchdog", "harness", "":
		t.trouble = append(t.trouble, fmt.Sprintf("seed %d: %s %s", seed, r.Kind, first(r.Msg, 400)))
		return
	}
	var nf int64
	for k, n := range r.Faults {
		t.faults[k] += n
		nf += n
	}
	if nf > 0 {
		t.faultyR++
	}
	for k, n := range r.Probes {
		t.probes[k] += n
		t.hitRuns[k]++
	}
	t.digests[r.Digest] = struct{}{}
	for _, p := range r.Pairs {
		t.pairs[p] = struct{}{}
	}
	t.steps += r.Stats.Steps
	t.switches += r.Stats.Switches
	t.preempts += r.Stats.Preempts
	t.stalls += r.Stats.Stalls
	t.simNs += r.Stats.SimNs
	if r.Stats.Gs > t.maxGs {
		t.maxGs = r.Stats.Gs
	}
	for _, p := range relevant[prop] {
		if r.Probes[p] > 0 {
			t.nontriv[r.Digest] = struct{}{}
			if len(t.samples) < 4 && (nf > 0 || len(t.samples) < 1) {
				t.samples = append(t.samples, map[string]any{"seed": seed, "digest": r.Digest, "steps": r.Stats.Steps, "preemptions": r.Stats.Preempts, "sim_s": float64(r.Stats.SimNs) / 1e9, "probes": r.Probes, "faults": r.Faults})
			}
			break
		}
	}
	t.byDigest[seed] = r.Digest
	for _, v := range r.Violations {
		if !v.of(prop) {
			continue
		}
		listed := false
		for i, f := range fs {
			if f.covers(prop, v) {
				t.known[i]++
				listed = true
			}
		}
		if !listed {
			t.hits = append(t.hits, hit{seed, v, r})
			break
		}
	}
}

func specOf(prop string, seed uint64) []byte {
	s := plan.Generate(prop, seed)
	if s == nil {
		fail("no plan for property %s", prop)
	}
	b, err := json.Marshal(s)
	ck(err, "spec")
	return b
}

const runLimit = 90 * time.Second

func check(prop, tier string) int {
	defer cleanup()
	start := time.Now()
	if relevant[prop] == nil {
		fail("unknown property %s", prop)
	}
	if tier != "quick" && tier != "thorough" {
		fail("unknown tier %s", tier)
	}
	vs := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 63)
		ck(err, "VERIF_SEED")
		vs = n
	}
	fmt.Printf("property %s tier %s VERIF_SEED %d\n", prop, tier, vs)
	b := budgetOf(prop, tier)
	w := buildRunner()
	fmt.Printf("simulated system built in %.1fs (cached: %v)\n", time.Since(start).Seconds(), w.Cached)
	fs := findings()
	base := vs * 1_000_000
	t := &tally{kinds: map[string]int{}, probes: map[string]int64{}, hitRuns: map[string]int64{}, faults: map[string]int64{}, digests: map[string]struct{}{}, nontriv: map[string]struct{}{}, pairs: map[uint64]struct{}{}, known: map[int]int{}, byDigest: map[uint64]string{}}
	t0 := time.Now()
	each(b.runs, func(i int) {
		seed := base + uint64(i)
		t.add(prop, seed, runSpec(w.Runner, specOf(prop, seed), runLimit, false), fs)
	}, func() bool {
		t.mu.Lock()
		defer t.mu.Unlock()
		return len(t.hits) > 0 || len(t.trouble) >= 8 || time.Since(t0) > b.wall
	})
	searchWall := time.Since(t0)
	// determinism: the same seeds again, in other processes
	diverged := 0
	rerun := 0
	if len(t.hits) == 0 {
		var mu sync.Mutex
		stride := t.runs/b.rerun + 1
		each(b.rerun, func(i int) {
			seed := base + uint64(i*stride)
			t.mu.Lock()
			want, ok := t.byDigest[seed]
			t.mu.Unlock()
			if !ok {
				return
			}
			r := runSpec(w.Runner, specOf(prop, seed), runLimit, false)
			mu.Lock()
			defer mu.Unlock()
			rerun++
			if r.Digest != want {
				diverged++
				fmt.Printf("NOT DETERMINISTIC: seed %d gave %s, then %s\n", seed, want, r.Digest)
			}
		}, nil)
	}
	code := 0
	var replayFile string
	if len(t.hits) > 0 {
		sort.Slice(t.hits, func(i, j int) bool { return t.hits[i].seed < t.hits[j].seed })
		code = 2
		for i, h := range t.hits {
			if i == 12 || code == 1 {
				break
			}
			fmt.Printf("seed %d violates %s (%s): %s\n", h.seed, prop, h.v.Cls, h.v.Msg)
			var ok bool
			if replayFile, ok = report(w, prop, h); ok {
				code = 1
			} else {
				fmt.Printf("the violation of seed %d does not reproduce\n", h.seed)
			}
		}
	} else if len(t.trouble) > 0 {
		for _, s := range t.trouble {
			fmt.Println("TROUBLE", s)
		}
		code = 2
	}
	evidence(prop, tier, vs, t, searchWall, time.Since(start), rerun, diverged)
	fmt.Printf("%d runs (%d distinct histories, %d relevant) in %.1fs, %.0f simulated seconds, %d statements, %d preemptions, kinds %v\n",
		t.runs, len(t.digests), len(t.nontriv), searchWall.Seconds(), float64(t.simNs)/1e9, t.steps, t.preempts, t.kinds)
	for i, f := range fs {
		if f.prop == prop && t.known[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
		}
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayFile)
	}
	return code
}

// ---------------------------------------------------------------- reporting

type Replay struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"seed"`
	Violation Violation       `json:"violation"`
	Kind      string          `json:"kind"`
	Digest    string          `json:"digest"`
	Tree      string          `json:"tree"`
	Minimised map[string]any  `json:"minimised"`
	Faults    map[string]any  `json:"faults"`
	Spec      json.RawMessage `json:"spec"`
	Trace     []string        `json:"trace"`
	LogTail   []string        `json:"log_tail,omitempty"`
}

func matchV(r *Result, prop string, v Violation) (Violation, bool) {
	for _, x := range r.Violations {
		if x.of(prop) && x.Cls == v.Cls && x.Prop == v.Prop {
			return x, true
		}
	}
	return Violation{}, false
}

func report(w ws, prop string, h hit) (string, bool) {
	orig := specOf(prop, h.seed)
	// exactly the same again, in a fresh process
	r := runSpec(w.Runner, orig, runLimit, false)
	if v, ok := matchV(r, prop, h.v); !ok || r.Digest != h.res.Digest || v.Msg != h.v.Msg {
		return "", false
	}
	best, tried := minimise(w, prop, h.v, orig, 60*time.Second)
	r = runTraced(w.Runner, best)
	v, ok := matchV(r, prop, h.v)
	if !ok { // cannot happen for a deterministic run
		best = orig
		r = runTraced(w.Runner, best)
		if v, ok = matchV(r, prop, h.v); !ok {
			return "", false
		}
	}
	fl := map[string]any{}
	for k, n := range r.Faults {
		fl[k] = n
	}
	tr := strings.Split(strings.TrimRight(r.trace, "\n"), "\n")
	if len(tr) > 2000 {
		tr = append(tr[:200:200], append([]string{"..."}, tr[len(tr)-1800:]...)...)
	}
	rep := Replay{Property: prop, Seed: h.seed, Violation: v, Kind: r.Kind, Digest: r.Digest, Tree: treeHash(repo, filepath.Join(verif, "sim")), Faults: fl, Spec: best, Trace: tr, LogTail: r.LogTail,
		Minimised: map[string]any{"runs": tried, "spec_bytes_before": len(orig), "spec_bytes_after": len(best), "steps_before": h.res.Stats.Steps, "steps_after": r.Stats.Steps, "preemptions_before": h.res.Stats.Preempts, "preemptions_after": r.Stats.Preempts}}
	dir := filepath.Join(verif, "replays")
	ck(os.MkdirAll(dir, 0o755), "replays")
	f := filepath.Join(dir, fmt.Sprintf("%s-%d-%s.json", prop, h.seed, v.Cls))
	b, _ := json.MarshalIndent(rep, "", " ")
	ck(os.WriteFile(f, b, 0o644), "replay file")
	fmt.Printf("minimised in %d runs: %d -> %d spec bytes, %d -> %d statements, %d -> %d preemptions\n", tried, len(orig), len(best), h.res.Stats.Steps, r.Stats.Steps, h.res.Stats.Preempts, r.Stats.Preempts)
	fmt.Printf("violation: %s\n", v.Msg)
	return f, true
}

func replay(file string) int {
	defer cleanup()
	b, err := os.ReadFile(file)
	ck(err, "replay file")
	var rep Replay
	ck(json.Unmarshal(b, &rep), "replay file")
	w := buildRunner()
	r := runTraced(w.Runner, rep.Spec)
	same := treeHash(repo, filepath.Join(verif, "sim")) == rep.Tree
	v, ok := matchV(r, rep.Property, rep.Violation)
	if os.Getenv("SIM_TRACE") != "" {
		fmt.Print(r.trace)
	}
	if ok {
		exact := r.Digest == rep.Digest && v.Msg == rep.Violation.Msg && v.AtNs == rep.Violation.AtNs
		fmt.Printf("%s %s at %.6fs: %s\nsame tree: %v, same history: %v\n", v.Prop, v.Cls, float64(v.AtNs)/1e9, v.Msg, same, exact)
		if same && !exact {
			fmt.Println("NOT DETERMINISTIC: the replay took another course")
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, file)
		return 1
	}
	if same {
		fmt.Println("NOT DETERMINISTIC: the violation does not show on the tree it was recorded on")
		return 2
	}
	fmt.Printf("not reproduced (the tree differs from the recorded one); kind %s\n", r.Kind)
	return 0
}

// ---------------------------------------------------------------- evidence

func evidence(prop, tier string, seed uint64, t *tally, search, wall time.Duration, rerun, diverged int) {
	inc := func(m map[string]int64) map[string]int64 { return m }
	cov := map[string]any{
		"evaluations":          t.runs,
		"distinct_nontrivial":  len(t.nontriv),
		"rule":                 "one evaluation is one simulated run of the whole system, its workload, configuration, schedule and faults all derived from one integer seed; it is non-trivial when " + ruleOf(prop) + "; distinct by the digest of its complete history (every frame, state change and scheduling decision)",
		"samples":              t.samples,
		"runs_per_hour":        int64(float64(t.runs) / search.Seconds() * 3600),
		"seeds":                fmt.Sprintf("%d..%d", seed*1_000_000, seed*1_000_000+uint64(t.runs)-1),
		"simulated_seconds":    t.simNs / 1e9,
		"statements":           t.steps,
		"context_switches":     t.switches,
		"preemptions":          t.preempts,
		"stalled_goroutines":   t.stalls,
		"runs_with_faults":     t.faultyR,
		"runs_without_faults":  t.runs - t.faultyR,
		"faults_injected":      inc(t.faults),
		"probes_hit":           inc(t.probes),
		"runs_hitting_probe":   inc(t.hitRuns),
		"distinct_histories":   len(t.digests),
		"preemption_pairs":     map[string]any{"count": len(t.pairs), "measure": "ordered pairs of source positions at which control was taken away one after the other (at most 400 per run are kept)"},
		"run_endings":          t.kinds,
		"most_goroutines":      t.maxGs,
		"determinism_reruns":   rerun,
		"determinism_diverged": diverged,
		"components_real":      realParts(prop),
		"components_stubbed":   stubParts(prop),
	}
	n := 0
	if len(t.hits) > 0 {
		n = 1
	}
	if len(t.samples) == 0 {
		cov["samples"] = []any{map[string]any{"seed": seed * 1_000_000, "note": "no run reached the property"}}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": n,
		"assumptions": []string{
			"the code under test runs unmodified in meaning: its Go sources are rewritten so that goroutines, channels, locks, clocks, timers, files, sockets and random numbers go through the simulator",
			"goroutines switch at statement boundaries, at short-circuit operators and between the read and the write of shared assignments; memory is sequentially consistent, so effects of weak memory ordering are not explored",
			"the parts listed as stubs behave as their documentation says",
		},
	}
	dir := filepath.Join(verif, "evidence")
	ck(os.MkdirAll(dir, 0o755), "evidence")
	b, err := json.MarshalIndent(ev, "", " ")
	ck(err, "evidence")
	ck(os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644), "evidence")
}
