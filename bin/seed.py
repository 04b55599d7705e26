#!/usr/bin/env python3
"""seed.py ID...   try planted bugs in a private overlay of /repo (user+mount namespace, nothing real is touched)
For each seeded/ID: clean demo rc, patched build+tests, patched demo rc, and the property's check.
Options: --nocheck, --new FILE.py (create seeds from a spec file: list of dicts)."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")
BASE = "vp-base"
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
g++ -std=gnu++17 -O1 -g -w %s -I/repo/src "$D/demo.cpp" -o "$T/demo" && timeout 60 "$T/demo"
'''
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode("utf8", "replace")
def base_commit():
    return sh("git -C /repo rev-list --reverse HEAD | head -1")[1].strip()
def create(spec):
    b = base_commit()
    for s in spec:
        d = os.path.join(SD, s["id"]); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="sd_")
        files = {}
        for f, old, new in s["edits"]:
            txt = files.get(f) or open("/repo/" + f).read()
            assert txt.count(old) == 1, (s["id"], f, old, txt.count(old))
            rc, orig = sh("git -C /repo show %s:%s" % (b, f))
            changed = [l for l in old.split("\n") if l not in new.split("\n")]
            for l in changed:
                if l.strip() and l not in orig: print("NOTE", s["id"], "line not in the original:", l)
            files[f] = txt.replace(old, new)
        out = ""
        for f, txt in files.items():
            os.makedirs(os.path.dirname(os.path.join(t, f)), exist_ok=True)
            open(os.path.join(t, f), "w").write(txt)
            rc, df = sh("diff -u --label a/%s --label b/%s /repo/%s %s" % (f, f, f, os.path.join(t, f)))
            out += df
        shutil.rmtree(t)
        open(os.path.join(d, "patch.diff"), "w").write(out)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % s.get("flags", "-fsanitize=address,undefined"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def trial(i, check=True, tier="quick"):
    d = os.path.join(SD, i); prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="sdt_")
    subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
    subprocess.run(["cp", "-a", d, t + "/demo"], check=True)
    script = '''
mount --bind %(t)s/repo /repo || exit 99
cd /repo; git checkout -q -- .
bash %(t)s/demo/demo.sh >%(t)s/clean.log 2>&1; echo "clean=$?"
git apply %(t)s/demo/patch.diff || { echo "apply=FAIL"; exit; }
bash /opt/vp/test.sh %(t)s/o.json 2>&1 | tail -1
bash %(t)s/demo/demo.sh >%(t)s/patched.log 2>&1; echo "patched=$?"
''' % {"t": t}
    if check:
        script += "cd %s; python3 bin/check.py %s --tier %s 2>&1 | grep -E 'VIOLATION|KNOWN|held|ndecided|rror|ALARM' | cut -c1-300 | tail -5; echo check=${PIPESTATUS[0]}\n" % (V, prop, tier)
    rc, o = sh("unshare -Urm bash -s", input=script.encode())
    print("== %s (%s): %s" % (i, prop, " | ".join(o.strip().split("\n"))), flush=True)
    if check:
        import fcntl
        rp = os.path.join(V, "bin", "seed_results.json")
        with open(rp + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = json.load(open(rp)) if os.path.exists(rp) else {}
            r[i] = ("no" if "check=1" not in o else "yes, no failing input" if "no-failing-input" in o else "yes, with failing input") + ("" if "clean=0" in o and "648 passed" in o and "patched=0" not in o else " (INVALID SEED)")
            json.dump(r, open(rp, "w"), indent=1, sort_keys=True)
    if "clean=0" not in o: print("   clean log:", open(t + "/clean.log").read()[-1500:])
    shutil.rmtree(t)
if __name__ == "__main__":
    a = sys.argv[1:]; check = "--nocheck" not in a; a = [x for x in a if x != "--nocheck"]
    if a and a[0] == "--new":
        g = {}; exec(open(a[1]).read(), g); create(g["SEEDS"]); a = [s["id"] for s in g["SEEDS"]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex: list(ex.map(lambda i: trial(i, check), a or sorted(os.listdir(SD))))
