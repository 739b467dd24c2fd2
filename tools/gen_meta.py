#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen_meta.py)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIM = set()
LEVEL = {}
NA = {}
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=None, na=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})
    if claim: LEVEL[id] = claim
    if na: NA[id] = na
exec(open(os.path.join(ROOT, "tools", "properties.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and crash points on the real code"
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                   "technique": TECH, "level": "exploration", "level_note": LEVEL[p["id"]]}
                  for p in P if p["id"] in LEVEL],
       "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in P if p["id"] not in LEVEL],
       "notes": "No source hooks in /repo: the checks compile /repo's crates with compiler instrumentation (a rustc wrapper in /verif/sim) and interpose libc. See DESIGN.md."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(LEVEL), "claimed")
