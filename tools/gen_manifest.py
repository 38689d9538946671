#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.CHECKS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C18": "Kokkos is not installed here and cannot be fetched, so the code under container/kokkos_* and container/view_* cannot be compiled, let alone run: there is no execution for a monitor to observe."}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                            "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
