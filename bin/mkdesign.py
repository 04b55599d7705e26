#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (template: bin/design.tmpl.md)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS, NA
import re
t = open(os.path.join(V, "bin", "design.tmpl.md")).read()
rows = []
for p in PROPS:
    hs = sorted(f for f in os.listdir(os.path.join(V, "harness")) if re.match(p["id"] + r"(_\w+)?\.cpp$", f))
    if not hs: continue
    ents = {}
    for h in hs:
        for l in open(os.path.join(V, "harness", h)):
            m = re.match(r"\s*//@\s*entry\s+(\w+)(.*)", l)
            if m:
                k = re.search(r"kind=(\w+)", m.group(2)); k = k.group(1) if k else "full"
                ents.setdefault(k, set()).add(m.group(1).replace("vh_", ""))
    rows.append("### %s %s\n\n%s\n\n*Specified over:* %s. *Files:* %s.\n\n%s\n\n*Why beyond tests:* %s.\n\n%s\n" % (
        p["id"], p["title"], p["statement"], p["quant"], ", ".join(p["files"]),
        "\n".join("* **%s** (%d): %s" % (k, len(v), ", ".join("`%s`" % x for x in sorted(v))) for k, v in sorted(ents.items())), p["why"], p["note"]))
fixed = "\n".join("* " + json.loads(l)["text"] for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip() and json.loads(l)["status"] == "fixed")
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip() and json.loads(l)["status"] == "known"]
if known: fixed += "\n\nRecorded, not repaired:\n\n" + "\n".join("* %s: %s" % (k["property"], k["text"]) for k in known)
seeds = "| seed | property | needs | caught |\n|---|---|---|---|\n"
res = {}
rp = os.path.join(V, "bin", "seed_results.json")
if os.path.exists(rp): res = json.load(open(rp))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], res.get(d, "?"))
na = "\n".join("* %s %s: %s" % (p["id"], p["title"], p["reason"]) for p in NA)
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXED@@", fixed).replace("@@SEEDS@@", seeds).replace("@@NA@@", na))
