package main

import (
	"encoding/json"
	"fmt"
	"os"

	"simrt"
)

func main() {
	if err := json.Unmarshal(simrt.SpecJSON, &spec); err != nil {
		fmt.Fprintln(os.Stderr, "bad spec:", err)
		os.Exit(2)
	}
	simrt.OnFinish = crashed
	for _, st := range spec.Steps {
		st := st
		simrt.AddTimer(simrt.PeekNs()+st.AtUs*1000, func() {
			simrt.StepWall(st.ByMs * 1e6)
			if st.FreezeUs > 0 {
				simrt.FreezeWall(true)
				res.Faults["clock_freeze"]++
				simrt.AddTimer(simrt.PeekNs()+st.FreezeUs*1000, func() { simrt.FreezeWall(false) })
			}
			if st.ByMs == 0 {
				return
			}
			if st.ByMs < 0 {
				res.Faults["clock_step_back"]++
			} else {
				res.Faults["clock_step_forward"]++
			}
		})
	}
	switch spec.Scenario {
	case "server":
		runServer(spec.Server)
	case "client":
		runClient(spec.Client)
	case "whole":
		runWhole(spec.Whole)
	case "auth":
		runAuth(spec.Auth)
	case "event":
		runEvent(spec.Event)
	case "gen":
		runGen(spec.Gen)
	default:
		fmt.Fprintln(os.Stderr, "unknown scenario", spec.Scenario)
		os.Exit(2)
	}
	finish("done", "")
}
