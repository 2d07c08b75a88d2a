#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
D = os.path.join(V, "tools", "design")
out = open(os.path.join(D, "head.md")).read()
out += "## 3. Properties and how each one is decided\n\n"
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    c = checks.CHECKS.get(p["id"])
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if not c:
        out += "Not claimed.\n\n"
        continue
    fns = [h if isinstance(h, str) else h["fn"] + (" (thorough only)" if h.get("thorough") else "") for h in c["run"]]
    out += "* Harnesses: %s\n" % ", ".join("`%s`" % f for f in fns)
    b = c["bounds"]
    if isinstance(b, (list, tuple)):
        out += "* Bounds, quick: %s.\n* Bounds, thorough: %s.\n" % (b[0], b[1])
    else:
        out += "* Bounds: %s.\n" % b
    out += "* Outside: %s.\n" % c["outside"]
    for a in c["assumptions"]:
        out += "* Assumes: %s.\n" % a
    if c.get("note"):
        out += "* %s\n" % c["note"]
    out += "\n"
out += open(os.path.join(D, "models.md")).read()
out += "\n## 6. Genuine defects found\n\nEach was shown on the real code. `fixed` ones are repaired by the named commit in /repo (message `fix: …`).\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith(("fixed:", "known:")):
        out += "* " + l.strip() + "\n"
out += open(os.path.join(D, "seeds.md")).read()
r = os.path.join(D, "seeds.tsv")
for l in open(r) if os.path.exists(r) else []:
    out += "| " + " | ".join(l.rstrip("\n").split("\t")) + " |\n"
out += "\nNot applicable: none of the listed properties.\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
