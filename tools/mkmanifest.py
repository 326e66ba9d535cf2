#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import CHECKS, TECH, LEVEL_NOTE
import props
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        mods = []
        for p in c["parts"]:
            m = p.get("module") or p.get("trace")
            if m not in mods: mods.append(m)
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, "TLA+/TLC: specification model checked, traces of the real code validated against it (%s)" % ", ".join(mods)),
                       "level": c.get("level", "model_checking"),
                       "level_note": LEVEL_NOTE.get(i, props.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's unmodified sources and intercept library and system calls at link time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. known-findings.json lists genuine defects found (repaired ones as fixed)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
