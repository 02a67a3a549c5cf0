#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from props.py and checks.py."""
import json, os, re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
from checks import CHECKS

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/run.py --setup", "checks": [], "not_applicable": [],
       "notes": "No hooks are needed in /repo: harnesses compile /repo's own sources. tools/run.py builds and runs one check; DESIGN.md explains each."}
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in CHECKS, p["id"]
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/run.py %s quick" % p["id"],
                          "thorough_cmd": "python3 tools/run.py %s thorough" % p["id"],
                          "technique": p["technique"], "level": CHECKS[p["id"]]["level"], "level_note": p["note"]})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
d = ""
for p in sorted(PROPS, key=lambda p: p["id"]):
    d += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["na"]:
        d += "*Not applicable:* %s\n\n" % p["na"]
        continue
    d += "*Technique:* %s. *Bounds:* %s.\n\n%s\n\n*Why tests cannot settle it:* %s\n\n" % (p["technique"], p["qtext"], p["design"], p["why"])
path = V + "/DESIGN.md"
s = open(path).read()
s = re.sub(r"(<!-- BEGIN PROPERTIES -->\n).*?(<!-- END PROPERTIES -->)", lambda m: m.group(1) + "\n" + d + m.group(2), s, flags=re.S)
open(path, "w").write(s)
