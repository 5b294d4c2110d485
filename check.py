#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property of /repo by symbolic execution of its compiled code
   check.py replay FILE                 run a reported counterexample against the real code again

The library is compiled, with the harness of the property, to LLVM IR from /repo's working tree; the engine
(engine/) executes that IR symbolically, asking Z3 about every branch and every assertion. Exit 0: holds within
the bounds; 1: violated (counterexample confirmed on a normal build); 3: no verdict, and why."""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, "build")
ENGINE = os.path.join(HERE, "engine/target/release/symex")
NPROC = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): ENV.pop(k, None)

def die(msg):
    print("NO VERDICT: " + msg)
    sys.exit(3)

def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=kw.pop("env", ENV), **kw)

def build_engine():
    r = sh(["cargo", "build", "-q", "--release", "--offline"], cwd=os.path.join(HERE, "engine"))
    if r.returncode: die("the engine does not build:\n" + r.stdout[-3000:])

def build_ir(mod, opt):
    out = os.path.join(BUILD, "%s%s.ll" % (mod, "-O" + opt if opt else ""))
    r = sh(["bash", os.path.join(HERE, "ir.sh"), mod, out] + ([opt] if opt else []), env=dict(ENV, VERIF_BUILD=BUILD))
    if r.returncode: die("harness %s does not build against /repo:\n%s" % (mod, r.stdout[-3000:]))
    return out

def build_native(mod):
    d = os.path.join(BUILD, "native-" + mod)
    shutil.rmtree(os.path.join(d, "release"), ignore_errors=True)
    r = sh(["cargo", "build", "-q", "--release", "--offline", "--features", mod], cwd=os.path.join(HERE, "harness/native"), env=dict(ENV, CARGO_TARGET_DIR=d))
    if r.returncode: die("native replay of %s does not build against /repo:\n%s" % (mod, r.stdout[-3000:]))
    return os.path.join(d, "release/native")

def nargs(run, inputs):
    return [run["entry"]] + ["p%d=%d" % kv for kv in sorted(run["params"].items())] + [",".join(map(str, inputs)) or "-"]

def native(binary, run, inputs, timeout=20, pre=()):
    """Run one concrete input; returns (outcome, details)."""
    try:
        limit = ["prlimit", "--as=%d" % (6 << 30)] if not pre and shutil.which("prlimit") else []
        r = subprocess.run(limit + list(pre) + [binary] + nargs(run, inputs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return "hang", {}
    out = r.stdout.decode(errors="replace").strip().splitlines()
    try: d = json.loads(out[-1])
    except Exception: d = {"outcome": "crash", "rc": r.returncode, "stderr": r.stderr.decode(errors="replace")[-600:]}
    d["rc"] = r.returncode
    return d["outcome"], d

def confirm(mod, binary, run, v):
    """Does the counterexample break the real code? (how, details)"""
    o, d = native(binary, run, v["inputs"])
    if o in ("assert", "panic", "leak", "hang", "crash"): return "native build: " + o, d
    if o == "out-of-inputs": return "native build takes another path (%s)" % o, d
    vg = shutil.which("valgrind")
    if v["kind"] in ("memory", "uninit", "ub", "leak") and vg:
        o2, d2 = native(binary, run, v["inputs"], 120, [vg, "-q", "--error-exitcode=99", "--leak-check=no"])
        if d2.get("rc") == 99 or o2 in ("assert", "panic", "crash"): return "valgrind: " + o2, d2
    if v["kind"] in ("memory", "uninit", "ub"):
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "miri"), MIRIFLAGS="-Zmiri-disable-isolation"); e.pop("RUSTUP_TOOLCHAIN")
        try: r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", mod, "--"] + nargs(run, v["inputs"]), cwd=os.path.join(HERE, "harness/native"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except Exception as ex: return None, {"miri": str(ex)}
        if "Undefined Behavior" in r.stdout: return "miri", {"miri": r.stdout[-2500:]}
    return None, d

stop, running = threading.Event(), set()
def stop_all():
    """One confirmed violation is enough: the rest need not be explored."""
    stop.set()
    for p in list(running): p.kill()

def symex(ll, run, shard, cfg, seed, tmp, n):
    out = os.path.join(tmp, "%d.json" % n)
    cfg = dict(cfg, **run.get("cfg", {}))
    cmd = [ENGINE, ll, run["entry"], out, "seed=%d" % seed, "max_secs=%d" % cfg["max_secs"], "max_steps=%d" % cfg["max_steps"], "max_alloc=%d" % cfg["max_alloc"], "samples=%d" % cfg["samples"], "dumps=%d" % cfg["dumps"], "shard=%d" % shard, "shards=%d" % run["shards"], "shard_depth=%d" % cfg["shard_depth"]]
    cmd += ["p%d=%d" % kv for kv in sorted(run["params"].items())]
    if stop.is_set(): return {"stopped": True}
    p = subprocess.Popen(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    running.add(p)
    if stop.is_set(): p.kill()
    said = p.communicate()[0]
    running.discard(p)
    if not os.path.exists(out): return {"stopped": True} if stop.is_set() else {"error": "engine: " + said[-1500:], "rc": p.returncode}
    d = json.load(open(out))
    os.unlink(out)
    return d

def cross_check(dumps, tmp):
    """Other solvers on a sample of the very queries Z3 decided."""
    res = {"queries": 0, "cvc5_agree": 0, "z3_new_agree": 0, "no_answer": 0, "disagree": []}
    def one(i, q):
        f = os.path.join(tmp, "q%d.smt2" % i)
        open(f, "w").write("(set-logic QF_BV)\n" + q["smt2"] + "\n(check-sat)\n")
        want = "sat" if q["sat"] else "unsat"
        o = []
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=60000", f]), ("z3_new", ["z3-new", "-T:60", f])):
            if not shutil.which(cmd[0]): o.append((name, None)); continue
            a = sh(cmd).stdout.split()
            o.append((name, a[-1] if a else None))
        os.unlink(f)
        return want, o
    with ThreadPoolExecutor(NPROC) as ex:
        for want, o in ex.map(lambda p: one(*p), list(enumerate(dumps))):
            res["queries"] += 1
            for name, a in o:
                if a == want: res[name + "_agree"] += 1
                elif a in ("sat", "unsat"): res["disagree"].append("%s says %s, z3 said %s" % (name, a, want))
                else: res["no_answer"] += 1
    return res

def encoded(fns):
    """functions with the number of instantiations executed"""
    n = collections.Counter(f.split("<")[0] for f in fns)
    return [f if k == 1 else "%s (%d instantiations)" % (f, k) for f, k in sorted(n.items())]

def ranges(l):
    o = []
    for x in sorted(l):
        if o and x == o[-1][1] + 1: o[-1][1] = x
        else: o.append([x, x])
    return ",".join("%d-%d" % (a, b) if a != b else str(a) for a, b in o)

def known():
    k = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) entry=(\S+) kind=(\S+) line=(\d+) inputs=(\S+) (.*)", l)
            if m: k.append(m.groups())
    return k

def is_known(k, prop, r, v): return (k[0], k[1], k[2], int(k[3]), k[4]) == (prop, r["entry"], v["kind"], v["line"], ",".join(map(str, v["inputs"])))

def main():
    if sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        how, d = confirm(v["module"], build_native(v["module"]), v["run"], v["violation"])
        print(how, json.dumps(d))
        sys.exit(1 if how else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = config.PROPS[prop]
    cfg = dict(config.TIERS[tier]); cfg.update(P.get(tier + "_cfg", {}))
    mod = P["module"]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(evidence): os.unlink(evidence)
    rng = random.Random(seed)
    runs = [dict(r) for r in P[tier]]
    opts = sorted({r.get("opt", "") for r in runs})
    with ThreadPoolExecutor(2 + len(opts)) as ex:
        fe = ex.submit(build_engine); fn = ex.submit(build_native, mod); fi = {o: ex.submit(build_ir, mod, o) for o in opts}
        fe.result(); lls = {o: f.result() for o, f in fi.items()}; binary = fn.result()
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-", dir=BUILD)
    try: verdict(prop, tier, seed, P, cfg, mod, t0, t_build, evidence, rng, runs, lls, binary, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def verdict(prop, tier, seed, P, cfg, mod, t0, t_build, evidence, rng, runs, lls, binary, tmp):
    jobs = []
    for r in runs:
        r.setdefault("shards", 1)
        for s in range(r["shards"]): jobs.append((r, s))
    jobs.sort(key=lambda j: -j[0].get("cost", 1))
    with ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(symex, lls[r.get("opt", "")], r, s, cfg, seed, tmp, n) for n, (r, s) in enumerate(jobs)]
        at = {f: jobs[n][0] for n, f in enumerate(fs)}
        early = {}
        for f in as_completed(fs):
            for v in f.result().get("violations", [])[:1]:
                how = early[(at[f]["entry"], json.dumps(v))] = confirm(mod, binary, at[f], v)
                if how[0] and not any(is_known(k, prop, at[f], v) for k in known()): stop_all()
        res = [f.result() for f in fs]
    problems, viols, per, samples, dumps, stopped, longest = [], [], {}, [], [], 0, 0
    tot = dict.fromkeys(("paths", "expected_panics", "killed", "forks", "steps", "asserts", "sym_asserts", "final_queries", "final_unsat", "branch_queries", "queries", "sat", "unsat", "concrete_only"), 0)
    solver_s, maxq, fns, lines, irf = 0.0, 0.0, set(), {}, set()
    for (r, s), d in zip(jobs, res):
        name = "%s%s %s shard %d/%d" % (r["entry"], "-O" + r["opt"] if r.get("opt") else "", r["params"], s, r["shards"])
        if "stopped" in d: stopped += 1; continue
        if "error" in d: problems.append(name + ": " + d["error"]); continue
        if d["unsupported"]: problems.append(name + ": unsupported: " + d["unsupported"])
        for v in d["violations"]: viols.append((r, v))
        if not d["violations"]:
            if d["timed_out"]: problems.append(name + ": time limit reached before every path was explored")
            if d["unknown"]: problems.append(name + ": the solver gave no answer to %d queries" % d["unknown"])
        for k in tot: tot[k] += d[k]
        longest = max(longest, d["max_steps"])
        solver_s += d["solver_s"]; maxq = max(maxq, d["max_query_s"])
        fns |= set(d["functions"]); irf |= set(d["ir_functions"])
        for f, l in d["lines"].items(): lines.setdefault(f, set()).update(l)
        samples += [(r, x) for x in d["samples"]]
        dumps += d["dumps"]
        p = per.setdefault((r["entry"], r.get("opt", ""), json.dumps(r["params"])), {"run": r, "paths": 0, "covers": set(), "queries": 0, "viol": 0})
        p["paths"] += d["paths"]; p["covers"] |= set(d["covers"]); p["queries"] += d["queries"]; p["viol"] += len(d["violations"])
    # violations: replay on a normal build of the real code before reporting anything
    confirmed, findings, kn = [], [], known()
    seen = set()
    for r, v in viols:
        key = (r["entry"], v["kind"], v["line"])
        if key in seen or len(confirmed) >= 5: continue
        seen.add(key)
        how, d = early.get((r["entry"], json.dumps(v))) or confirm(mod, binary, r, v)
        if not how: problems.append("%s: counterexample not reproduced on the real code: %s %s inputs=%s (%s)" % (r["entry"], v["kind"], v["msg"], str(v["inputs"])[:200], d.get("outcome"))); continue
        k = next((k for k in kn if is_known(k, prop, r, v)), None)
        if k: findings.append(k); continue
        i = len(confirmed)
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "module": mod, "run": r, "violation": v, "confirmed_by": how, "native": d, "again": "python3 check.py replay " + path}, open(path, "w"), indent=1)
        confirmed.append((r, v, how, path))
    # the engine against the real code: sampled paths must behave the same on a normal build
    rng.shuffle(samples)
    validated, mismatch, written = 0, [], []
    pick = [(r, x) for r, x in samples if x["outcome"] in ("returned", "panicked as expected")][: cfg["validate"]]
    with ThreadPoolExecutor(NPROC) as ex:
        for (r, x), (o, d) in zip(pick, ex.map(lambda p: native(binary, p[0], p[1]["inputs"]), pick)):
            n = min(len(x["obs"]), len(d.get("obs", [])))
            good = ((o == "ok") if x["outcome"] == "returned" else (o == "expected-panic")) and x["obs"][:n] == d["obs"][:n] and d.get("unused") == 0
            if good: validated += 1
            else: mismatch.append("%s inputs=%s engine=%s native=%s" % (r["entry"], x["inputs"], x["outcome"], o))
            if good and len(written) < 4: written.append({"entry": r["entry"], "params": r["params"], "inputs": x["inputs"], "instructions": x["steps"], "outcome": o, "observed": x["obs"][:24]})
    # vacuity: the cases a run must have reached
    missing = []
    for p in per.values():
        if p["viol"]: continue
        need = set(p["run"].get("covers", []))
        if not need <= p["covers"] or p["paths"] == 0: missing.append("%s %s: not reached: %s" % (p["run"]["entry"], p["run"]["params"], sorted(need - p["covers"])))
    rng.shuffle(dumps)
    cc = cross_check(dumps[: cfg["cross"]], tmp) if cfg["cross"] else None
    if not confirmed:
        problems += ["engine and real code disagree: " + m for m in mismatch] + missing
        if cc and cc["disagree"]: problems += cc["disagree"]
    cov = {
        "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": written,
        "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"],
        "outside": P.get("outside", config.OUTSIDE),
        "entries": [{"entry": p["run"]["entry"], "opt_level": p["run"].get("opt") or "1", "params": p["run"]["params"], "paths": p["paths"], "queries": p["queries"], "covers": sorted(p["covers"])} for p in per.values()],
        "paths_ending_in_a_demanded_panic": tot["expected_panics"], "branches_forked": tot["forks"], "longest_path_instructions": longest, "entries_not_finished_after_a_violation": stopped,
        "assertions_met": tot["asserts"], "assertions_over_symbolic_values": tot["sym_asserts"],
        "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "branch_queries": tot["branch_queries"],
        "solver": "Z3 (libz3)", "solver_s": round(solver_s, 3), "slowest_query_s": maxq,
        "other_solvers": cc, "functions_encoded": encoded(fns), "ir_functions_executed": len(irf), "source_lines_encoded": sum(map(len, lines.values())), "lines_encoded": {f: ranges(l) for f, l in sorted(lines.items())},
        "build_s": round(t_build, 1), "exhaustive": not problems,
        "rule": "a state is a completed symbolic path (one tree shape and history, all values symbolic); a transition is one LLVM IR instruction executed symbolically; branch_queries decide whether a branch on symbolic values is feasible, the other queries decide all assertions of a path at once",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": config.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    json.dump(ev, open(evidence, "w"), indent=1)
    print("%s %s: %d symbolic paths, %d queries (%.1f s in the solver), %d functions of /repo, %d paths replayed natively, %.1f s" % (prop, tier, tot["paths"], tot["queries"], solver_s, len(fns), validated, time.time() - t0))
    for k in findings: print("KNOWN-FINDING: property=%s %s" % (k[0], k[5]))
    for r, v, how, path in confirmed:
        print("  %s %s: %s %s at %s [%s]" % (r["entry"], r["params"], v["kind"], v["msg"], v["at"][:200] or "line %d of %s.rs" % (v["line"], mod), how))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for p in problems: print("NO VERDICT: " + p)
    sys.exit(1 if confirmed else 3 if problems else 0)

if __name__ == "__main__": main()
