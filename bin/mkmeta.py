#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/props.py (one table, so they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p.get("technique", "contract-based deductive verification: pre/postconditions and loop invariants on the real functions, extracted from clang IR on every run, obligations discharged by CBMC/SAT"),
                 "level": "proof", "level_note": p["note"]} for p in PROPS if os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp"))],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA] +
                       [{"property": p["id"], "reason": "contracts not built yet"} for p in PROPS if not os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp"))],
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
