#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [--proof NAME] [--baseline]
Decides one property: regenerates every obligation from /repo's current source, discharges it, runs the bounded
companion suite on the real code, writes evidence/<id>.json.  Exit 0 held, 1 violation, 2 no answer."""
import sys, os, json, time, importlib, multiprocessing as mp, resource, subprocess, argparse, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VT_REPO", "/repo")
TRUST = [
    "CPython executing the mechanically rewritten source (pyvc/loader.py: literals become exact rationals, arithmetic operators exact operators, for-loops the loop rule; decorators numba.jit dropped)",
    "pyvc symbolic semantics of Python and of the numpy operations used (pyvc/core.py, arrays.py, npshim.py, loops.py)",
    "pyvc polynomial normal form (pyvc/poly.py) and the reduction of linear arithmetic to z3",
    "z3 %s, cvc5" % __import__("z3").get_version_string(),
    "real arithmetic stands for IEEE floating point; integer widths only where a wrap obligation is stated",
]

def run_proof(p, tier, conn, tmo, limit, maxas):
    from pyvc import core, loader
    resource.setrlimit(resource.RLIMIT_AS, (maxas, maxas))
    out = {"name": p.name, "functions": p.functions, "obligations": []}
    t0 = time.time()
    o = dict(p.opts); o.setdefault("zero_div_inf", True); o["tmo_ms"] = tmo if tmo else o.get("tmo_ms", 1500)
    shims, merge = o.pop("shims", None), o.pop("merge_ifs", False)
    e = core.Engine(p.name, **o)
    e.deadline = t0 + limit
    L = loader.Loader(REPO, shims=shims(e) if callable(shims) else shims, merge=merge)
    status, reason = "proved", ""
    try:
        e.explore(lambda E: p.thunk(E, L))
    except core.Unsupported as x:
        status, reason = "undecided", "outside the verifier's subset: %s" % x
    except core.VcRaise as x:
        status, reason = "failed", "the code raises %s on an input the contract admits" % x
    except RecursionError as x:
        status, reason = "undecided", "recursion limit"
    except Exception as x:
        status, reason = "undecided", "%s: %s" % (type(x).__name__, str(x)[:300])
        out["trace"] = traceback.format_exc()[-1500:]
    bad = []
    for ob in e.obls:
        out["obligations"].append([ob.name, ob.status, ob.by, round(ob.time, 3)])
        if ob.status != "proved":
            bad.append({"name": ob.name, "status": ob.status, "backend": ob.by, "reason": ob.reason[:300], "goal": str(ob.goal)[:1500],
                        "hypotheses": [str(h)[:300] for h in ob.hyps[-12:]], "model": str(ob.model)[:1500] if ob.model is not None else None})
    if status == "proved":
        if bad: status, reason = "failed", "obligation not discharged: " + bad[0]["name"]
        elif not e.obls: status, reason = "undecided", "no obligation generated (vacuous)"
    elif status == "undecided" and any(b["status"] == "refuted" for b in bad):
        out["partial"] = bad[:4]
    out.update(status=status, reason=reason, bad=bad[:6], nbad=len(bad), paths=e.paths, time=round(time.time() - t0, 2), solver_time=round(e.solver_time, 2), assumptions=sorted(str(a) for a in e.assumptions), files=sorted(str(f) for f in L.files))
    conn.send(out); conn.close()

def run_all(proofs, tier, limit, total, nproc, tmo=0, log=None):
    ctx = mp.get_context("fork")
    todo = list(proofs); live = []; res = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < nproc:
            p = todo.pop(0)
            if time.time() - t0 > total:
                res[p.name] = {"name": p.name, "functions": p.functions, "status": "undecided", "reason": "time budget of this run used up", "obligations": [], "bad": [], "paths": 0, "time": 0, "solver_time": 0, "assumptions": []}
                continue
            a, b = ctx.Pipe(False)
            lim = p.opts.get("limit", limit)
            q = ctx.Process(target=run_proof, args=(p, tier, b, tmo, lim, 7 << 30))
            q.start(); b.close()
            live.append((p, q, a, time.time(), lim))
        time.sleep(0.01)
        for it in list(live):
            p, q, a, ts, lim = it
            r = None
            if a.poll():
                try: r = a.recv()
                except EOFError: r = None
                q.join(5)
            elif not q.is_alive():
                r = None
            elif time.time() - ts > lim * 1.5 + 5:
                q.kill(); q.join()
            else: continue
            if r is None: r = {"name": p.name, "functions": p.functions, "status": "undecided", "reason": "verifier ran out of time or memory", "obligations": [], "bad": [], "paths": 0, "time": round(time.time() - ts, 2), "solver_time": 0, "assumptions": []}
            res[p.name] = r
            if log: log(r)
            live.remove(it)
    return [res[p.name] for p in proofs if p.name in res]

def known(prop):
    out = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                sig = [w for w in l.split() if w.startswith("sig=")][0][4:]
                out.append((sig, l.split(" -- ", 1)[-1]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--proof"); ap.add_argument("--noconc", action="store_true"); ap.add_argument("--noproof", action="store_true"); ap.add_argument("--baseline", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop, tier = a.prop, a.tier
    mod = importlib.import_module("contracts.%s" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cpath = os.path.join(HERE, "concrete", prop + ".py")
    conc = None
    if os.path.exists(cpath) and not a.noconc:
        of = os.path.join(HERE, "evidence", prop + ".suite.json")
        if os.path.exists(of): os.unlink(of)
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONPATH=HERE, NUMBA_DISABLE_JIT=os.environ.get("NUMBA_DISABLE_JIT", "1"), OMP_NUM_THREADS="2")
        conc = subprocess.Popen([os.path.join(HERE, "bin/rpy"), cpath, of], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    proofs = [] if a.noproof else mod.proofs(tier)
    if a.proof: proofs = [p for p in proofs if a.proof in p.name]
    limit = 60 if tier == "quick" else 240
    def log(r):
        if a.v: print("   [%s] %s paths=%d obl=%d bad=%s %.1fs %s" % (r["status"], r["name"], r["paths"], len(r["obligations"]), r.get("nbad", 0), r["time"], r["reason"]), flush=True)
        if a.v and r.get("trace"): print(r["trace"])
        if a.v:
            for b in r["bad"][:3]: print("        ", b["name"], b["status"], b["reason"], b["goal"][:400].replace("\n", " "), "| MODEL", (b["model"] or "")[:300].replace("\n", " "))
    try:
        with open(os.path.join(HERE, "baseline", prop + ".json")) as f: base = json.load(f)
    except FileNotFoundError: base = {}
    res = run_all(proofs, tier, limit, 240 if tier == "quick" else 700, 7, log=log)
    suite = None; crash = None
    if conc is not None:
        try:
            so, _ = conc.communicate(timeout=max(30, (400 if tier == "quick" else 840) - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(conc.pid, signal.SIGKILL); so, _ = conc.communicate(); crash = "time limit of the suite"
        try:
            with open(of) as f: suite = json.load(f)
            os.unlink(of)
        except FileNotFoundError:
            crash = crash or "suite ended with code %s: %s" % (conc.returncode, so.decode("utf8", "replace")[-1500:])
        if a.v and so: print(so.decode("utf8", "replace")[-3000:])
    # a failed proof of the baseline gets a second, longer attempt (solver time-outs)
    decided = suite and any(f["sig"] not in [x for x, _ in known(prop)] for f in suite["failures"]) or any(base.get(r["name"]) == "proved" and (any(b["status"] == "refuted" for b in r["bad"]) and r["status"] == "failed" or "the code raises" in r["reason"]) for r in res)
    again = [p for p, r in zip(proofs, res) if base.get(p.name) == "proved" and (r["status"] == "failed" and any(b["status"] == "unknown" for b in r["bad"]) or "ran out" in r["reason"] or "time" in r["reason"] and r["status"] == "undecided")]
    if again and not a.baseline and not decided:
        r2 = {r["name"]: r for r in run_all(again[:7], tier, 150, 200, 7, tmo=15000, log=log)}
        res = [r2[r["name"]] if r["name"] in r2 and r2[r["name"]]["status"] != "undecided" else r for r in res]
    if a.baseline:
        os.makedirs(os.path.join(HERE, "baseline"), exist_ok=True)
        with open(os.path.join(HERE, "baseline", prop + ".json"), "w") as f: json.dump({r["name"]: r["status"] for r in res}, f, indent=1)
        base = {r["name"]: r["status"] for r in res}
    viol = []       # (kind, path)
    n = 0
    def replay(d):
        nonlocal n
        n += 1
        p = os.path.join(HERE, "evidence", "%s.replay%d.json" % (prop, n))
        with open(p, "w") as f: json.dump(d, f, indent=1, default=str)
        return p
    kn = known(prop); hit = {}
    fails = list(suite["failures"]) if suite else []
    newf = []
    for f in fails:
        k = [s for s, d in kn if s == f["sig"]]
        if k: hit.setdefault(k[0], f)
        else: newf.append(f)
    for s, d in kn:
        if s in hit: print("KNOWN-FINDING: property=%s %s" % (prop, d))
    lost = []
    broken = []
    for r in res:
        if r["status"] == "failed":
            if base.get(r["name"]) == "proved": broken.append(r)
        elif r["status"] == "undecided" and base.get(r["name"]) == "proved": lost.append(r)
    for f in newf[:3]:
        p = replay({"property": prop, "kind": "failing input replayed on the real code", "signature": f["sig"], "input": f["input"], "detail": f["detail"],
                    "failed_obligations": [{"proof": r["name"], "obligations": r["bad"], "reason": r["reason"]} for r in broken],
                    "run_again": "VERIF_SEED=%d %s/bin/rpy %s /dev/stdout" % (seed, HERE, cpath)})
        viol.append("VIOLATION property=%s replay=%s" % (prop, p))
    if not newf:
        for r in broken[:3]:
            p = replay({"property": prop, "kind": "obligation not discharged", "proof": r["name"], "functions": r["functions"], "reason": r["reason"], "verifier_output": r["bad"],
                        "run_again": "%s/check.py %s --proof %r --noconc -v" % (HERE, prop, r["name"])})
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    obl = [o for r in res for o in r["obligations"]]
    by = {}
    for o in obl:
        if o[1] == "proved": by[o[2]] = by.get(o[2], 0) + 1
    good = [r for r in res if r["status"] == "proved"]
    und = [{"proof": r["name"], "functions": r["functions"], "reason": r["reason"]} for r in res if r["status"] == "undecided"]
    cov = {"obligations": len(obl), "discharged": sum(1 for o in obl if o[1] == "proved"), "checker_cmd": "./check.py %s --tier %s" % (prop, tier), "trusted_base": TRUST + list(getattr(mod, "TRUST", [])),
           "proof_tasks": len(res), "proof_tasks_proved": len(good), "undecided_tasks": und, "backends": by, "paths": sum(r["paths"] for r in res),
           "solver_seconds": round(sum(r["solver_time"] for r in res), 2), "functions_under_contract": sorted({f for r in good for f in r["functions"]}),
           "tasks": [{"name": r["name"], "status": r["status"], "obligations": len(r["obligations"]), "seconds": r["time"]} for r in res]}
    if suite:
        cov["bounded"] = {"label": "BOUNDED - not counted as proved", "evaluations": suite["evaluations"], "distinct_nontrivial": suite["distinct"], "rule": suite["rule"], "skipped": suite["skipped"], "groups": suite["groups"], "seconds": suite["seconds"]}
        cov["evaluations"] = suite["evaluations"]; cov["distinct_nontrivial"] = suite["distinct"]; cov["rule"] = suite["rule"]
        cov["samples"] = suite["samples"]
    if not cov.get("samples"): cov["samples"] = [{"proof": r["name"], "obligation": r["obligations"][0][:3]} for r in good[:3] if r["obligations"]]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": getattr(mod, "LEVEL", "proof"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + sorted({x for r in res for x in r["assumptions"]}), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    cov["explanation"] = getattr(mod, "EXPLANATION", "")
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for r in lost: print("UNDECIDED proof=%r %s" % (r["name"], r["reason"]))
    print("%s: %d/%d proof tasks proved, %d/%d obligations discharged%s, %.1fs" % (prop, len(good), len(res), cov["discharged"], cov["obligations"],
          ", bounded suite %d evaluations %d failures" % (suite["evaluations"], len(fails)) if suite else "", time.time() - t0))
    for v in viol: print(v)
    if viol: sys.exit(1)
    if crash:
        print("NO ANSWER from the bounded suite: " + crash); sys.exit(2)
    sys.exit(0)
main()
