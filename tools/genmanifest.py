#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
done = set(open(os.path.join(here, "tools", "checked.txt")).read().split())
note = {
    "server": "Seeded search over complete simulated gateways (real msc_server, codec, auth, ants, rate limiter; simulated TCP, clock, scheduler, peers): holds on every run explored, not a proof. Trusts the rewriting of the sources onto the simulator, sequentially consistent memory, and the gnet/log/config stubs.",
    "client": "Seeded search over the real client library against model gateways in one simulated process: holds on every run explored, not a proof. Trusts the rewriting of the sources onto the simulator, sequentially consistent memory, the log/config stubs and the model gateway.",
    "lib": "Seeded search over schedules, clock steps and faults around the real code: holds on every run explored, not a proof. Trusts the rewriting of the sources onto the simulator and sequentially consistent memory.",
}
note["whole"] = "Seeded search over the real client library and the real gateways together in one simulated process: holds on every run explored, not a proof. Trusts the rewriting of the sources onto the simulator, sequentially consistent memory, and the gnet/log/config stubs."
kind = lambda p: "whole" if p == "P26" else "client" if p in ("P15", "P16", "P17", "P18", "P19", "P23", "P27") else "lib" if p in ("P12", "P20", "P21") else "server"
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    if p in done:
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded schedule, network, clock and crash search; invariants and history oracle)",
            "level": "exploration", "level_note": note[kind(p)]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
