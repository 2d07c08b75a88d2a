#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "none: the checks analyse the unmodified sources", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                            "technique": "bounded symbolic execution of the Go SSA with an SMT solver" + c.get("tech", ""), "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": getattr(checks, "NA", {}).get(p, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
