#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
SRC = "crates/multicalc/src/"
lines, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": [SRC + f if not f.startswith("crates/") else f for f in p["files"]],
                    "mechanism": [{"name": n, "where": (SRC + w if not w.startswith("crates/") else w)} for n, w in p["mech"]]},
    }))
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p.get("technique", "symbolic execution of the library's generic code at a symbolic scalar; exact rational normal forms and SMT (QF_NRA: z3, cvc5) decide every path and assertion"),
        "level": "model_checking",
        "level_note": p["level"],
    })
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
import props as _p, design
for p in PROPS:
    p["_real"] = _p.REAL
design.write(root, PROPS)
print(len(checks), "checks,", len(na), "not applicable")
