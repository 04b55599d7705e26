#!/usr/bin/env python3
"""replay.py FILE: runs the counterexample of a replay file on the real code of /repo."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
print("property", r["property"], "contract", r["contract"])
print("failed obligations:\n  " + "\n  ".join(r["failed_obligations"]))
c = r.get("counterexample")
if not c:
    print("no failing input was found; verifier output:")
    print(json.dumps(r["verifier"], indent=1))
    sys.exit(0)
w = check.Work("quick")
e = check.Entry(os.path.join(check.V, r["source"]), r["contract"].split("[")[0], {"defs": ",".join(d[2:] for d in r["defs"])})
rc, out = check.native(w, e, c["values"], c["twin"])
print("values:", c["values"]); print(out); print("exit", rc)
