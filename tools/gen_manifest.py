#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS, LEVEL, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, chunkings, faults and inputs of the real code)",
            "level": LEVEL.get(i, "exploration"),
            "level_note": PROPS[i].get("note") or "Seeded search over simulated executions of the real code, each exactly repeatable; no claim beyond the runs explored. Trusts the simulated kernel, OpenMP runtime and heap, and the independent reference of the file format in sim/ref.cpp.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the modules are compiled from /repo's sources unchanged, every seam is at the libc, libgomp, allocator and instrumentation boundary", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3 tools/check.py --replay FILE [--v] replays a recorded failure; KNOWN_FINDINGS.txt lists genuine defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
