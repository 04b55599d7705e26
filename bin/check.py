#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--entry E] [--keep]

Decides one property: every contract (entry) of the property's contract TUs is compiled together
with /repo's current headers, extracted by irc, and every obligation is sent to the back end.
Exit 0: all discharged.  Exit 1: VIOLATION line.  Exit 2: the check itself could not decide.
"""
import signal, sys, os, re, json, subprocess, shutil, time, tempfile, hashlib, argparse, shlex
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(V, "harness")
IRC = os.path.join(V, "build", "irc")
CLANG = ["clang++", "-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
         "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool,float-cast-overflow",
         "-fsanitize-trap=all", "-fno-threadsafe-statics", "-DFEATURE_ESTD_COMPILE_VERBOSITY=3", "-DFEATURE_ESTD_COMPILE_STRICTNESS=4", "-w", "-emit-llvm", "-c"]
GXX = ["g++", "-std=gnu++17", "-O1", "-g", "-DFEATURE_ESTD_COMPILE_VERBOSITY=3", "-DFEATURE_ESTD_COMPILE_STRICTNESS=4", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,null"]
CBMC = ["cbmc", "--no-standard-checks", "--pointer-check", "--bounds-check", "--no-malloc-may-fail",
        "--unwinding-assertions", "--json-ui", "--verbosity", "8"]
DEFAULT_TIMEOUT = {"quick": 240, "thorough": 3000}


class Undecided(Exception):
    pass


def run(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        return p.returncode, so.decode("utf8", "replace"), se.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return -9, "", "timeout after %ss" % timeout


class Entry:
    """One line `//@ entry NAME kind=... unwind=...` of a contract TU."""
    def __init__(self, src, name, opts):
        self.src, self.name, self.opts = src, name, opts
        self.kind = opts.get("kind", "full")          # proof | full | bounded
        self.unwind = int(opts.get("unwind", "12"))
        self.twin_unwind = int(opts.get("twin", str(max(self.unwind, 8))))
        self.tier = opts.get("tier", "quick")
        self.defs = ["-D" + d for d in opts.get("defs", "").split(",") if d]
        self.tdefs = ["-D" + d for d in opts.get("tdefs", "").split(",") if d]   # thorough tier instead
        self.solver = opts.get("solver", "sat")
        self.timeout = int(opts.get("timeout", "0"))
        self.label = name + ("" if not self.defs else "[" + ",".join(d[2:] for d in self.defs) + "]")


def entries_of(src, tier):
    out = []
    for line in open(src):
        m = re.match(r"\s*//@\s*entry\s+(\w+)\s*(.*)$", line)
        if not m:
            continue
        opts = {}
        for t in shlex.split(m.group(2)):
            if "=" in t:
                k, v = t.split("=", 1)
                opts[k] = v
        e = Entry(src, m.group(1), opts)
        if e.tier == "thorough" and tier != "thorough":
            continue
        if tier == "thorough":
            if e.tdefs:
                e.defs = e.tdefs
            if "tunwind" in opts:
                e.unwind = int(opts["tunwind"])
        out.append(e)
    return out


class Work:
    def __init__(self, tier):
        self.tier = tier
        self.dir = tempfile.mkdtemp(prefix="vh_")
        shutil.copy(os.path.join(H, "vh_rt.h"), self.dir)
        self.bc = {}
        self.hsrc = {}

    def includes(self):
        return ["-I" + os.path.join(REPO, "src"), "-I" + H]

    def compile(self, src, defs, twin):
        key = (src, tuple(defs), twin)
        if key in self.bc:
            return self.bc[key]
        h = hashlib.md5(repr(key).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, os.path.basename(src) + "." + h + ".bc")
        cmd = CLANG + self.includes() + list(defs) + (["-DVH_BOUNDED"] if twin else []) + \
            ["-DVH_REPO=\"" + REPO + "\"", src, "-o", out]
        rc, so, se = run(cmd, 300)
        if rc != 0:
            raise Undecided("clang failed on %s: %s" % (src, se[-3000:]))
        self.bc[key] = out
        return out

    def extract(self, e, twin, cut):
        bc = self.compile(e.src, e.defs, twin)
        base = os.path.join(self.dir, "%s_%s%s" % (e.name, hashlib.md5(" ".join(e.defs).encode()).hexdigest()[:6], "_t" if twin else ""))
        c = base + ".c"
        rc, so, se = run([IRC, bc, c, e.name] + (["--cut"] if cut else []), 300)
        if rc != 0:
            raise Undecided("extraction failed for %s: %s" % (e.name, se[-2000:]))
        fns, ext = [], []
        for l in so.splitlines():
            p = l.split("\t")
            if p[0] == "function":
                fns.append((p[1], re.sub(r"^.*?/src/", "src/", os.path.normpath(p[2].split(":")[0])) + ":" + p[2].split(":")[1]))
            elif p[0] == "external":
                ext.append(p[1])
        return c, fns, ext

    def cbmc(self, c, e, unwind, defs=(), extra=(), timeout=None):
        cmd = CBMC + [c, "--function", e.name, "--unwind", str(unwind), "-I", self.dir] + ["-D" + d for d in defs] + list(extra)
        if e.solver == "cadical":
            cmd += ["--sat-solver", "cadical"]
        elif e.solver == "z3":
            cmd += ["--z3"]
        elif e.solver in ("cvc5", "int"):
            cmd += ["--cvc5"]
        env = dict(os.environ, PATH=os.path.join(os.path.dirname(os.path.abspath(__file__)), "cvc5int") + ":" + os.environ.get("PATH", "")) if e.solver == "int" else None
        for o in shlex.split(e.opts.get("cbmc", "")):
            cmd.append(o)
        t0 = time.time()
        rc, so, se = run(["bash", "-c", "ulimit -v 14000000; exec \"$@\"", "x"] + cmd, timeout, env=env)
        dt = time.time() - t0
        if rc == -9:
            raise Undecided("%s: back end timeout (%ss)" % (e.label, timeout))
        try:
            data = json.loads(so)
        except Exception:
            raise Undecided("%s: back end gave no result (rc=%s): %s %s" % (e.label, rc, so[-1500:], se[-1500:]))
        res, solver, msgs, trace = None, 0.0, [], None
        for x in data:
            if "result" in x:
                res = x["result"]
            if "messageText" in x:
                m = re.match(r"Runtime Solver: ([\d.e-]+)s", x["messageText"])
                if m:
                    solver += float(m.group(1))
                if x.get("messageType") in ("ERROR", "WARNING"):
                    msgs.append(x["messageText"])
        if res is None:
            raise Undecided("%s: back end error rc=%s: %s" % (e.label, rc, "; ".join(msgs)[-1500:] + se[-500:]))
        return res, solver, dt, cmd, msgs


def loc(r):
    s = r.get("sourceLocation", {})
    f = re.sub(r"^.*?/src/estd/", "src/estd/", s.get("file", "?"))
    return "%s:%s" % (f.replace("/../", "/"), s.get("line", "?"))


def obligation_name(r):
    d = r["description"]
    return d if "|" in d else "ub|" + d + "|" + loc(r)


def nd_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "input" and st.get("inputID") == "nd":
            v = st["values"][0]
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                vals.append(int(re.sub(r"[uUlL]+$", "", v["data"])) & 0xffffffffffffffff)
    return vals


def native(work, e, vals, twin):
    """replay: the same contract TU compiled with sanitizers, fed with the counterexample"""
    exe = os.path.join(work.dir, "native_%s_%s" % (e.name, hashlib.md5(repr((e.defs, twin)).encode()).hexdigest()[:6]))
    if not os.path.exists(exe):
        cmd = GXX + work.includes() + e.defs + (["-DVH_BOUNDED"] if twin else []) + \
            ["-DVH_NATIVE", "-DVH_ENTRY=" + e.name, "-DVH_REPO=\"" + REPO + "\"", e.src, os.path.join(H, "vh_native.cpp"), "-o", exe]
        rc, so, se = run(cmd, 300)
        if rc != 0:
            return None, "native build failed: " + se[-1500:]
    vf = exe + ".nd"
    open(vf, "w").write("\n".join(map(str, vals)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    rc, so, se = run([exe, vf], 60, env=env)
    return rc, se[-4000:]


def search(work, e, twin, seconds):
    """look for concrete values that show the refused obligation on the real code (fixed seed)"""
    exe = os.path.join(work.dir, "search_%s_%s" % (e.name, hashlib.md5(repr((e.defs, twin)).encode()).hexdigest()[:6]))
    cmd = GXX + work.includes() + e.defs + (["-DVH_BOUNDED"] if twin else []) + \
        ["-DVH_NATIVE", "-DVH_SEARCH", "-DVH_ENTRY=" + e.name, "-DVH_REPO=\"" + REPO + "\"", e.src, os.path.join(H, "vh_native.cpp"), "-o", exe]
    rc, so, se = run(cmd, 300)
    if rc != 0:
        return None, "search build failed: " + se[-800:]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    vf = exe + ".out"
    rc, so, se = run([exe, vf, str(seconds)], seconds + 30, env=env)
    if rc != 0 and os.path.exists(vf):
        vals = [int(x) for x in open(vf)]
        rc2, out = native(work, e, vals, twin)
        t = {"obligation": "(first refused obligation on these values)", "values": vals, "native_rc": rc2, "native_output": out, "twin": twin, "found_by": "search over arbitrary values of the contract, fixed seed"}
        if rc2 is not None and rc2 not in (0, 77, 78):
            return t, "found"
        return None, "not confirmed: rc %s %s" % (rc2, out[-300:])
    return None, "rc %s %s" % (rc, se[-300:])


def split(res):
    post, inv, reach = [], [], []
    for r in res:
        d = r["description"]
        if d.startswith("inv|"):
            inv.append(r)
        elif d.startswith("reach|"):
            reach.append(r)
        else:
            post.append(r)
    return post, inv, reach


def counterexample(work, e, c, unwind, failing, defs, twin, timeout):
    """find a counterexample among the failing obligations and replay it on the real code"""
    tried = []
    for r in failing[:6]:
        try:
            res, s, dt, cmd, m = work.cbmc(c, e, unwind, defs, ["--property", r["property"], "--trace"], timeout)
        except Undecided as u:
            tried.append({"obligation": obligation_name(r), "note": str(u)})
            continue
        for x in res:
            if x["property"] == r["property"] and x["status"] == "FAILURE" and "trace" in x:
                vals = nd_values(x["trace"])
                rc, out = native(work, e, vals, twin)
                t = {"obligation": obligation_name(r), "values": vals, "native_rc": rc, "native_output": out, "twin": twin}
                tried.append(t)
                if rc is not None and rc not in (0, 77, 78):
                    return t, tried
    return None, tried


def decide(work, e):
    """returns a dict describing the outcome of one entry"""
    t0 = time.time()
    timeout = e.timeout or DEFAULT_TIMEOUT[work.tier]
    if work.tier == "thorough":
        timeout = max(timeout, DEFAULT_TIMEOUT["thorough"])
    out = {"entry": e.label, "kind": e.kind, "solver_s": 0.0, "status": "?", "obligations": 0, "discharged": 0, "failed": [],
           "backend": "cbmc 6.11 " + {"sat": "MiniSAT", "cadical": "CaDiCaL", "z3": "z3", "cvc5": "cvc5", "int": "cvc5 (bit vectors as integers)"}[e.solver]}
    cut = e.kind == "proof"
    c, fns, ext = work.extract(e, False, cut)
    out["functions"], out["external"] = fns, ext
    defs = ["VH_PROOF"] if cut else []
    off = set()
    runs = 0
    while True:
        runs += 1
        res, s, dt, cmd, msgs = work.cbmc(c, e, e.unwind, defs + ["OFF_%d" % i for i in sorted(off)], (), timeout)
        out["solver_s"] += s
        post, inv, reach = split(res)
        bad = {int(r["description"].split("|")[1]) for r in inv if r["status"] == "FAILURE"}
        if not bad:
            f = [r for r in post if r["status"] == "FAILURE"]
            if f and not cut and e.unwind < 60 and all("unwinding assertion" in r["description"] for r in f):
                e.unwind = 2 * e.unwind + 4     # the code loops more often than expected: unroll further
                continue
            break
        off |= bad
        if runs > 30:
            raise Undecided("%s: invariant search did not converge" % e.label)
    out["checker_cmd"] = " ".join(x.replace(work.dir, "$WORK") for x in cmd)
    out["invariants"] = len({r["description"].split("|")[1] for r in inv})
    out["houdini_runs"] = runs
    failing = [r for r in post if r["status"] == "FAILURE"]
    unknown = [r for r in post + inv if r["status"] not in ("FAILURE", "SUCCESS")]
    out["obligations"] = len(post) + len(inv)
    out["discharged"] = len([r for r in post + inv if r["status"] == "SUCCESS"])
    out["reach_total"], out["reach_ok"] = len(reach), len([r for r in reach if r["status"] == "FAILURE"])
    names = {}
    for r in post + inv:
        k = r["description"].split("|")[0] if "|" in r["description"] else ("unwind" if "unwinding assertion" in r["description"] else "ub")
        names[k] = names.get(k, 0) + 1
    out["by_kind"] = names
    out["post_labels"] = sorted({r["description"].split("|", 1)[1] for r in post if r["description"].startswith("post|")})
    if not failing:
        if unknown:
            raise Undecided("%s: undecided obligations %s" % (e.label, [obligation_name(r) for r in unknown[:5]]))
        if not reach:
            raise Undecided("%s: contract has no reach label" % e.label)
        dead = [r["description"] for r in reach if r["status"] != "FAILURE"]
        if dead:
            out["status"] = "vacuous"
            out["dead"] = dead
        else:
            out["status"] = "ok"
        out["wall_s"] = time.time() - t0
        return out
    # something failed
    out["status"] = "failed"
    out["failed"] = sorted({obligation_name(r) for r in failing})
    out["verifier"] = [{"obligation": obligation_name(r), "at": loc(r), "status": r["status"]} for r in failing]
    real = [r for r in failing if "unwinding assertion" not in r["description"]] or failing
    real.sort(key=lambda r: (not r["description"].startswith("post|"), not r["description"].startswith("event|")))
    confirmed, tried = None, []
    if not cut:
        confirmed, tried = counterexample(work, e, c, e.unwind, real, defs, False, timeout)
        if not confirmed:
            confirmed, note = search(work, e, False, 15)
            tried.append({"search": note})
    else:
        confirmed, note = search(work, e, True, 15)
        tried.append({"search": note})
    if cut and not confirmed:
        # bounded twin of the same contract: concrete small sizes, loops unrolled
        try:
            ct, _, _ = work.extract(e, True, False)
            res, s, dt, cmd, msgs = work.cbmc(ct, e, e.twin_unwind, [], (), timeout)
            p2, _, _ = split(res)
            f2 = [r for r in p2 if r["status"] == "FAILURE"]
            r2 = [r for r in f2 if "unwinding assertion" not in r["description"]] or f2
            r2.sort(key=lambda r: (not r["description"].startswith("post|")))
            out["twin_failed"] = sorted({obligation_name(r) for r in r2})
            if r2:
                confirmed, tr = counterexample(work, e, ct, e.twin_unwind, r2, [], True, timeout)
                tried += tr
        except Undecided as u:
            tried.append({"note": str(u)})
    out["confirmed"], out["tried"] = confirmed, tried
    out["wall_s"] = time.time() - t0
    return out


def property_sources(prop):
    return sorted(os.path.join(H, f) for f in os.listdir(H) if re.match(re.escape(prop) + r"(_\w+)?\.cpp$", f))


def known_findings(prop):
    p = os.path.join(V, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def check_known(work, k):
    """a known finding is one entry restricted to one input: it is run on the real code"""
    src = os.path.join(H, k["source"])
    e = Entry(src, k["entry"], {})
    rc, outp = native(work, e, k.get("values", []), False)
    return rc not in (0, 77, 78, None), rc, outp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--selfsearch", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    run([os.path.join(V, "bin", "setup.sh")], 1200)
    if not os.path.exists(IRC):
        print("ERROR: extraction tool missing")
        return 2
    work = Work(tier)
    try:
        return body(a, prop, tier, work, t0)
    finally:
        if a.keep:
            print("work dir:", work.dir)
        else:
            shutil.rmtree(work.dir, ignore_errors=True)


def body(a, prop, tier, work, t0):
    es = []
    for s in property_sources(prop):
        es += entries_of(s, tier)
    if a.entry:
        es = [e for e in es if re.search(a.entry, e.label)]
    if not es:
        print("ERROR: no contracts for", prop)
        return 2
    if a.selfsearch:
        # sanity of the replay side: the contracts' native form must hold on the unchanged tree
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for e, (c, note) in zip(es, ex.map(lambda e: search(work, e, e.kind == "proof", a.selfsearch), es)):
                if c or not note.startswith("rc 0"):
                    bad += 1
                if c or a.v or not note.startswith("rc 0"):
                    print("%-40s %s" % (e.label, (c["native_output"][:600], c["values"][:40]) if c else note))
        print("selfsearch %s: %d of %d contracts with a native failure" % (prop, bad, len(es)))
        return 1 if bad else 0
    # compile distinct TUs first (in parallel), then decide all entries
    errors, results = [], []
    with ThreadPoolExecutor(8) as ex:
        errors = []
        keys = sorted({(e.src, tuple(e.defs)) for e in es})
        futs = [ex.submit(work.compile, s, list(d), False) for s, d in keys]
        for f in futs:
            try:
                f.result()
            except Undecided as u:
                errors.append(str(u))
        if errors:
            for x in sorted(set(errors))[:3]:
                print("ERROR:", x[:900])
            return 2
        order = sorted(es, key=lambda e: -float(e.opts.get("cost", "1")))
        futs = [(e, ex.submit(decide, work, e)) for e in order]
        for e, f in futs:
            try:
                r = f.result()
                results.append((e, r))
                if a.v:
                    print("%-40s %-8s %s obligations %d/%d reach %d/%d inv %d runs %d solver %.1fs wall %.1fs %s" %
                          (r["entry"], r["kind"], r["status"], r["discharged"], r["obligations"], r["reach_ok"], r["reach_total"],
                           r["invariants"], r["houdini_runs"], r["solver_s"], r["wall_s"], "; ".join(r["failed"][:6])))
                    for t in r.get("tried", []):
                        print("     ", json.dumps(t)[:700])
                    sys.stdout.flush()
            except Undecided as u:
                if "timeout" in str(u):
                    # the back end did not accept the obligations within its time: not proved
                    results.append((e, {"entry": e.label, "kind": e.kind, "status": "failed", "failed": ["back end gave no answer in time"],
                                        "verifier": [str(u)], "checker_cmd": "", "obligations": 0, "discharged": 0, "solver_s": 0.0, "functions": [], "external": [],
                                        "invariants": 0, "houdini_runs": 0, "reach_ok": 0, "reach_total": 0, "by_kind": {}, "post_labels": [], "backend": "", "wall_s": 0.0}))
                    r = results[-1][1]
                    try:
                        r["confirmed"], note = search(work, e, e.kind == "proof", 20)
                    except Exception as x:
                        r["confirmed"], note = None, str(x)
                    r["tried"] = [{"note": str(u)}, {"search": note}]
                else:
                    errors.append(str(u))
                if a.v:
                    print("UNDECIDED", u)
    violations = 0
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for e, r in results:
        if r["status"] == "vacuous":
            errors.append("%s: contract unreachable past %s" % (r["entry"], r["dead"]))
        if r["status"] != "failed":
            continue
        violations += 1
        path = os.path.join(rdir, "%s_%s.json" % (prop, re.sub(r"\W+", "_", r["entry"])))
        conf = r.get("confirmed")
        rep = {"property": prop, "contract": r["entry"], "source": os.path.relpath(e.src, V), "failed_obligations": r["failed"],
               "verifier": r["verifier"], "checker_cmd": r["checker_cmd"], "defs": e.defs,
               "counterexample": conf, "attempts": r.get("tried", []),
               "how_to_replay": "python3 bin/replay.py " + os.path.relpath(path, V)}
        json.dump(rep, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if conf else " no-failing-input-found"))
        print("failed obligation in %s: %s" % (r["entry"], "; ".join(r["failed"][:4])))
        if conf:
            print("  replayed on the real code: %s" % conf["native_output"].strip().splitlines()[-1:][0] if conf["native_output"].strip() else "  replayed on the real code: exit %s" % conf["native_rc"])
    # confirmed violations first
    lines.sort(key=lambda l: l.endswith("no-failing-input-found"))
    known = []
    for k in known_findings(prop):
        still, rc, outp = check_known(work, k)
        known.append({"what": k["what"], "still_fails": still})
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, tier, results, errors, known, violations, time.time() - t0)
    if lines:
        # violations shown on concrete values decide; unconfirmed ones beside them are only listed
        conf = [l for l in lines if not l.endswith("no-failing-input-found")]
        for l in conf or lines:
            print(l)
        for l in (lines if conf else []):
            if l not in conf:
                print("also refused: " + l.split("replay=")[1])
        return 1
    if errors:
        for x in errors:
            print("ERROR:", x)
        return 2
    ok = [r for _, r in results]
    print("OK property=%s contracts=%d obligations=%d wall=%.1fs" % (prop, len(ok), sum(r["obligations"] for r in ok), time.time() - t0))
    return 0


TRUST = [
    "clang 18 front end (C++ to LLVM IR at -O0 quality), irc's inliner/SROA from LLVM 18 and irc's one-statement-per-instruction printing to C",
    "CBMC 6.11 and its decision procedure",
    "C library functions the code calls are taken by their definition (harness/vh_rt.h); operator new/malloc never fail",
    "stack unwinding: a throw ends the run (destructors that an exception would run are not verified)",
    "pointer alignment is not checked; undef/poison is read as an arbitrary value",
]


def write_evidence(prop, tier, results, errors, known, violations, wall):
    proved = [r for _, r in results if r["kind"] in ("proof", "full")]
    bounded = [r for _, r in results if r["kind"] == "bounded"]
    fns = {}
    for _, r in results:
        for n, l in r["functions"]:
            fns[n] = l
    ext = sorted({x for _, r in results for x in r["external"]})
    cov = {
        "obligations": sum(r["obligations"] for r in proved),
        "discharged": sum(r["discharged"] for r in proved),
        "checker_cmd": next((r["checker_cmd"] for r in proved), results[0][1]["checker_cmd"] if results else ""),
        "trusted_base": TRUST + ["bodiless external (arbitrary result assumed): " + x for x in ext],
        "contracts": len(proved),
        "contracts_unbounded_loops": len([r for r in proved if r["kind"] == "proof"]),
        "contracts_full_unwinding": len([r for r in proved if r["kind"] == "full"]),
        "bounded_standins_not_counted": {"contracts": len(bounded), "obligations": sum(r["obligations"] for r in bounded),
                                         "discharged": sum(r["discharged"] for r in bounded),
                                         "entries": [r["entry"] for r in bounded]},
        "vacuity_reach_labels": {"total": sum(r["reach_total"] for _, r in results), "reached": sum(r["reach_ok"] for _, r in results)},
        "solver_s": round(sum(r["solver_s"] for _, r in results), 3),
        "backends": sorted({r["backend"] for _, r in results}),
        "functions_under_contract": len(fns),
        "functions": sorted("%s  (%s)" % (n, l) for n, l in fns.items())[:400],
        "per_contract": [{"contract": r["entry"], "kind": r["kind"], "status": r["status"], "obligations": r["obligations"],
                          "discharged": r["discharged"], "by_kind": r["by_kind"], "invariants": r["invariants"],
                          "postconditions": r["post_labels"][:60], "solver_s": round(r["solver_s"], 3)} for _, r in results],
        "known_findings": known,
        "undecided": errors,
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof", "coverage": cov,
          "assumptions": TRUST, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
