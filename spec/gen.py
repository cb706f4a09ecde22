#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checker/meta.json from spec/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA, ENGINE

pj, checks, meta = [], [], {}
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    pj.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "state": [{"name": a, "meaning": b} for a, b in p.get("state", [])],
            "mechanism": [{"name": a, "where": b} for a, b in p.get("mech", [])],
            "observe_at": p["observe"],
        },
    })
    if p.get("na"):
        continue
    tech = p.get("technique", ENGINE)
    checks.append({
        "property": p["id"],
        "quick_cmd": "/verif/check.sh %s quick" % p["id"],
        "thorough_cmd": "/verif/check.sh %s thorough" % p["id"],
        "technique": tech,
        "level": "other",
        "level_note": p["note"],
    })
    meta[p["id"]] = {"technique": tech, "explain": p["rule"], "assumptions": p.get("assume", []), "min": p["min"]}

man = {"version": 1, "setup_cmd": "/verif/build.sh", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")]}
def w(path, s):
    with open(os.path.join(root, path), "w") as f:
        f.write(s)
w("properties.jsonl", "".join(json.dumps(x) + "\n" for x in pj))
w("MANIFEST.json", json.dumps(man, indent=1) + "\n")
w("checker/meta.json", json.dumps(meta, indent=1) + "\n")
def rd(f):
    with open(os.path.join(here, f)) as h:
        return h.read()
d = [rd("design_head.md"), "## Properties\n"]
for p in PROPS:
    d.append("### %s %s\n" % (p["id"], p["title"]))
    if p.get("na"):
        d.append("Not applicable: %s\n" % p["na"])
        continue
    d.append("*For* %s. *Anchors:* %s.\n" % (p["forall"], ", ".join("`%s`" % f for f in p["files"])))
    d.append("**Decided by:** %s\n" % p["rule"])
    d.append("**Bounds and trust:** %s.%s\n" % (p["note"], "".join(" Assumes: %s." % a for a in p.get("assume", []))))
    d.append("**Why tests cannot:** %s.\n" % p["why"])
d.append(rd("design_tail.md"))
w("DESIGN.md", "\n".join(d))
print(len(pj), "properties", len(checks), "checks")
