#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
    "P22": "A pure function of its input: no schedule, clock, fault, I/O or interleaving is involved in forming the string of a series key, so there is nothing for a simulator to decide (P08 and P16 check under simulation that distinct series are never mixed up by the library itself).",
    "P23": "A pure function of its input: walking a struct by reflection involves no schedule, clock, fault or I/O (that concurrent observers never see a torn struct is part of P09).",
}
what = {
    "P01": "histories of concurrent calls checked against interval bounds and an exact final model",
    "P02": "an unmonitored twin as reference for outcomes, panics and contexts",
    "P03": "listings checked against the recorded lifetimes of all spans",
    "P04": "recorded span links and call graph checked against the planned program",
    "P05": "observer event logs checked against attachment windows and span histories",
    "P06": "watcher logs checked against registration windows and trace histories",
    "P07": "collected subtrees checked against the recorded span tree; bounded liveness",
    "P08": "identity and exactly-once collection checked against the recorded registrations",
    "P09": "linearizability search over recorded histories against sequential models",
    "P10": "meter totals and rates checked against the recorded marks and simulated clock",
    "P11": "distributions checked against the recorded observations (prefix and multiset models)",
    "P12": "durations checked against the simulated monotonic clock while the wall clock jumps",
    "P13": "reports parsed and compared with the recorded state while writers fail",
    "P14": "query answers, keep-alives and leftovers checked while the client fails and stalls",
    "P15": "hop histories checked over a simulated faulty network",
    "P16": "delta conservation over recorded concurrent collections",
    "P17": "reported values checked against a simulated operating system with failing sources",
    "P18": "every operation retried under a step budget after panicking and re-entering callbacks",
    "P19": "seeded mixes of the whole API: deadlock, progress and crash detection, then again under the race detector with the simulator's schedule",
    "P20": "everything handed out re-examined after every later step",
    "P21": "all generated ids of a run compared, start-up randomness failing or degenerate",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "python3 check.py " + p,
        "technique": "deterministic simulation with seeded schedules and fault injection: " + what[p],
        "level": "exploration",
        "level_note": "Seeded search over schedules and faults of the real code, instrumented from /repo's current tree, on a simulated scheduler, clock and environment; a clean run is evidence for the executions explored, not a proof. Trusts the instrumenter, the simulated primitives (sequentially consistent atomics and locks) and the oracle in sim/harness/%s.go. Bounds in DESIGN.md." % p.lower(),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks in /repo: checks instrument a copy of /repo's working tree under /verif/.build. Commits in /repo are fixes of defects found (known-findings.txt). Replay a violation with: python3 check.py replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
