#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked by TLC; "
TRACE = "histories of the real code validated against the specification (trace validation)"
WALK = "walks over TLC's state graph of the implementation-shaped specification replayed in the real code, and random " + TRACE
TECH = {
 "C06": T + "every presence pattern enumerated by TLC times the query catalogue, and random " + TRACE,
 "C07": T + "every presence pattern enumerated by TLC times the query catalogue, and random " + TRACE,
 "C12": T + "random " + TRACE,
 "C15": T + "guard scenarios enumerated by TLC and run in the real code under a controlled lock implementation",
 "C16": T + "thread programs enumerated by TLC, schedules of the real code explored and each history checked for linearizability by TLC",
 "C17": T + "thread programs and the waits they can end in enumerated by TLC, schedules of the real code explored for deadlocks, its lock order judged by TLC, and each history validated",
 "C20": T + "orders of working on several worlds enumerated by TLC, filled with histories of the real code, and the recorded traces validated against the specification of several worlds",
}
NOTE = ("Exhaustive for the specification within the stated constants; the code is judged on every transition of those state graphs that is "
        "replayed and on the recorded random histories, each event compared by TLC with what the specification allows. Trusts the harness's "
        "recording, the parking_lot stand-in (same blocking rules) and TLC.")
CONC = ("Programs and scenarios are enumerated exhaustively by TLC within the stated constants and sampled from there; the code is judged on the explored thread schedules (bounded "
        "preemptions and random) of small programs. Trusts the scheduler-controlled parking_lot stand-in and TLC.")
NA = {}
import sys
sys.path.insert(0, ROOT + "/tools")
import check
DONE = check.SEQ + check.CONC
checks = []
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
for p in props:
    i = p["id"]
    if i not in DONE:
        continue
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=TECH.get(i, T + WALK), level="model_checking",
                       level_note=CONC if i in ("C15", "C16", "C17") else NOTE))
na = [dict(property=p["id"], reason=NA.get(p["id"], "its check is still being built")) for p in props if p["id"] not in DONE]
m = dict(version=1, setup_cmd="python3 tools/check.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness replaces the parking_lot crate (cargo patch) and needs only the public API.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
