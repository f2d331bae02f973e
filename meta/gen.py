#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props_*.py (one list P of dicts each)."""
import json, glob, os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props, na = [], []
for f in sorted(glob.glob(here + "/props_*.py")):
    ns = {}
    exec(open(f).read(), ns)
    props += ns["P"]
props.sort(key=lambda p: p["id"])
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and operation histories of the real code"
lines, checks, nal = [], [], []
for p in props:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["forall"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
    if "observe" in p:
        d["anchors"]["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(d))
    if "na" in p:
        nal.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "exploration", "level_note": p["note"]})
open(root + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none in /repo: seams are inserted into a generated copy by simgen through go build -overlay", "enable": "build.sh generates the instrumented overlay from /repo's working tree; the shipped sources carry no hook", "source_commits": []},
     "checks": checks, "not_applicable": nal,
     "notes": "Every check rebuilds the simulator from /repo's working tree (about 3 s warm, 15 s cold). VERIF_SEED selects the seed set. replay.sh FILE re-executes a recorded violation."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(lines), "properties,", len(checks), "checks,", len(nal), "not applicable")
