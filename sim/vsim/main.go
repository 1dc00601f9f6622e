package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"plan"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(trouble); ok {
				fmt.Fprintln(os.Stderr, "vsim: trouble:", t.msg)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	if len(os.Args) < 2 {
		fail("usage: vsim build | check PROP TIER | run PROP SEED | spec PROP SEED | sweep PROP FROM N | replay FILE")
	}
	a := os.Args[2:]
	need := func(n int) {
		if len(a) < n {
			fail("missing arguments")
		}
	}
	num := func(s string) uint64 {
		n, err := strconv.ParseUint(s, 10, 64)
		ck(err, "number")
		return n
	}
	if v := os.Getenv("VSIM_VERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("VSIM_REPO"); v != "" {
		repo = v
	}
	switch os.Args[1] {
	case "build":
		t := time.Now()
		w := buildRunner()
		fmt.Printf("built %s (cached: %v) in %.1fs\n", w.Runner, w.Cached, time.Since(t).Seconds())
	case "spec":
		need(2)
		b, _ := json.MarshalIndent(plan.Generate(a[0], num(a[1])), "", " ")
		fmt.Println(string(b))
	case "run": // one seed, result on stdout; SIM_TRACE=1 shows the history
		need(2)
		w := buildRunner()
		b, _ := json.Marshal(plan.Generate(a[0], num(a[1])))
		r := runSpec(w.Runner, b, 300*time.Second, true)
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(o))
		cleanup()
	case "sweep":
		need(3)
		w := buildRunner()
		sweep(w.Runner, a[0], num(a[1]), int(num(a[2])))
	case "kill": // development aid: does any of these checks notice a change?
		need(3)
		w := buildRunner()
		kill(w.Runner, strings.Split(a[0], ","), num(a[1]), int(num(a[2])))
	case "check":
		need(2)
		os.Exit(check(a[0], a[1]))
	case "replay":
		need(1)
		os.Exit(replay(a[0]))
	default:
		fail("unknown command %s", os.Args[1])
	}
}
