#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]
Decides one property: (A) every contract of the property is verified on the IR of /repo's current sources (unbounded);
(S) labelled bounded stand-ins run the real code natively; (B) on a proof failure the same contract is decided exactly at small dimension."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
if not os.environ.get("VERIF_PY"):
    import shutil
    py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
    os.environ["VERIF_PY"] = py; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"; os.environ["PYTHONHASHSEED"] = "0"
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "contracts")); sys.path.insert(0, os.path.join(HERE, "vc"))
import time, json, traceback, subprocess, tempfile, shutil, multiprocessing as mp, argparse
sys.setrecursionlimit(20000)
T0 = time.time()

def summarise(r, c, nd):
    obls = [(o.label, o.where, o.status, round(o.time, 3)) for o in r.obls]
    d = dict(name=c.name, desc=c.desc, nd=nd, proved=r.proved, error=r.error, vacuous=r.vacuous, outcomes=r.outcomes, n=len(r.obls),
             discharged=sum(1 for o in r.obls if o.status == "proved"), failed=[x for x in obls if x[2] != "proved"], cuts=r.cuts, wall=round(r.wall, 2),
             inlined=r.inlined, used=r.used, models=r.models, havocked=r.havocked, invs=[(a, b, len(l)) for a, b, l in r.invs], solver=round(sum(o.time for o in r.obls), 2),
             target=getattr(r, "target", ""), tb=getattr(r, "tb", None))
    d["refuted"] = any(o.status == "refuted" and not o.approx for o in r.obls) and r.error is None
    if r.vacuous and r.error is None: d["error"] = "vacuous: the specified outcome is unreachable"
    ce = []
    for o in r.obls:
        if o.status == "refuted" and o.model is not None and nd is not None:
            ins = {}
            for k, v in c.ins.items():
                try:
                    if v[0] == "int": ins[k] = str(o.model.eval(v[1], model_completion=True))
                    else:
                        n = v[2] if isinstance(v[2], int) else o.model.eval(v[2], model_completion=True).as_long()
                        ins[k] = [str(o.model.eval(ival_(v[1](i)), model_completion=True)) for i in range(min(n, 16))]
                except Exception as e: ins[k] = "?"
            ce.append((o.label, ins))
    d["ce"] = ce[:5]
    return d
def ival_(x):
    import z3
    return z3.IntVal(x) if isinstance(x, int) else x

def work(t):
    """one verification task in a forked worker"""
    import prover, random
    key, mk, nd, timeout, obl, kw = t
    t1 = time.time()
    try:
        import contract as ct, z3
        prover.STATS.__init__()
        mod = MODS[key[0]]
        c = mk(nd)
        callees = [k() for k in getattr(c, "callees", ())]
        r = ct.verify(mod, c, callees, opts=kw or None, timeout=timeout, obl_timeout=obl)
        d = summarise(r, c, nd)
        d["queries"] = prover.STATS.queries; d["qtime"] = round(prover.STATS.time, 2); d["backend"] = dict(prover.STATS.by)
    except Exception as e:
        d = dict(name=key[1], desc="", nd=nd, proved=False, error="internal: %r" % (e,), tb=traceback.format_exc(), refuted=False, failed=[], n=0, discharged=0, outcomes={}, vacuous=False, inlined=[], used=[], models=[], havocked=[], invs=[], solver=0, wall=time.time() - t1, ce=[], queries=0, qtime=0, backend={}, cuts=0, target="")
    d["key"] = key
    return d
MODS = {}

def run_tasks(tasks, procs=8, hard=600):
    """each task in its own forked process: a crash or hang of one does not disturb the others"""
    out = [None] * len(tasks); ctx = mp.get_context("fork"); active = {}; nxt = 0
    while nxt < len(tasks) or active:
        while nxt < len(tasks) and len(active) < procs:
            a, b = ctx.Pipe(False)
            def main(i=nxt, b=b):
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                b.send(work(tasks[i])); b.close()
            p = ctx.Process(target=main); p.start(); b.close(); active[nxt] = (p, a, time.time()); nxt += 1
        for i, (p, a, t) in list(active.items()):
            if a.poll(0.01):
                try: out[i] = a.recv()
                except EOFError: pass
                p.join(); del active[i]
            elif not p.is_alive():
                del active[i]
            elif time.time() - t > hard:
                p.kill(); p.join(); del active[i]
        time.sleep(0.005)
    for i, t in enumerate(tasks):
        if out[i] is None:
            out[i] = dict(name=t[0][1], desc="", nd=t[2], proved=False, error="verifier did not finish", refuted=False, failed=[], n=0, discharged=0, outcomes={}, vacuous=False, inlined=[], used=[], models=[], havocked=[], invs=[], solver=0, wall=0, ce=[], queries=0, qtime=0, backend={}, cuts=0, target="", key=t[0])
    return out

def run_native(nat, pid, tier, seed, scratch, log):
    """bounded stand-in: the real code, compiled natively, on generated inputs; returns dict"""
    import build
    name = nat["driver"]; res = dict(driver=name, evaluations=0, distinct=0, samples=[], fail=None, error=None, rule=nat.get("rule", ""))
    t = time.time()
    try:
        if name.endswith(".py"):
            cmd = [nat.get("python", sys.executable), os.path.join(HERE, "replay", name)]
        else:
            cmd = [build.native(name, tuple(nat.get("flags", ("-O1",))), nat.get("cxx", "g++"))]
        n = nat["n"][0 if tier == "quick" else 1]; tl = nat.get("time", (60, 400))[0 if tier == "quick" else 1]
        cmd += ["--prop", pid, "--seed", str(seed), "--n", str(n), "--time", str(tl), "--scratch", scratch]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:max_allocation_size_mb=3000", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0",
                   Z5_REPO=build.REPO, LC_ALL="C", PYTHONPATH="")
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=tl + 150, env=env, errors="replace")
        last = [l for l in p.stdout.splitlines() if l.startswith("{")]
        if not last: res["error"] = "driver gave no result (rc %d): %s" % (p.returncode, (p.stderr or p.stdout)[-500:])
        else: res.update(json.loads(last[-1]))
        res["cmd"] = " ".join(cmd)
    except build.BuildError as e: res["error"] = "driver does not compile against the current tree: " + str(e)[:1500]
    except subprocess.TimeoutExpired: res["error"] = "driver timed out"
    res["wall"] = round(time.time() - t, 1)
    return res

def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:") and ("property=%s " % pid) in l:
                import re
                m = re.search(r"id=(\S+)", l); out.append((m.group(1) if m else "", l.split(" ", 3)[-1]))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--no-native", action="store_true"); ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true"); ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--nd", type=int, default=0)
    a = ap.parse_args(); pid, tier = a.prop, a.tier; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry, build, ir
    spec = registry.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix="z5v_%s_" % pid, dir="/tmp"); rdir = os.path.join(build.BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    log = []; und = []; viol = None
    try:
        # natives first in background threads (they are mostly compile time), proofs in forked workers
        import threading
        nres = []
        def nat_thread():
            for nat in spec.get("native", []):
                if a.no_native: break
                sd = os.path.join(scratch, "n%d" % len(nres)); os.makedirs(sd, exist_ok=True)
                try: nres.append(run_native(nat, pid, tier, seed, sd, log))
                except Exception as e: nres.append(dict(driver=nat["driver"], error="internal %r" % (e,), evaluations=0, distinct=0, samples=[], fail=None, wall=0))
                shutil.rmtree(sd, ignore_errors=True)
        th = threading.Thread(target=nat_thread); th.start(); th.join()
        hit = any(n.get("fail") for n in nres)       # the answer is known: the proofs only add detail
        # ---- (A) contracts
        tasks = []; results = []; lem = []; pyr = []
        if not a.no_proof:
            for h, mk in spec.get("contracts", []):
                if h not in MODS:
                    try: MODS[h] = ir.Module(build.ir(h))
                    except build.BuildError as e: MODS[h] = None; und.append("IR harness %s does not compile: %s" % (h, str(e)[:600]))
                    except Exception as e: MODS[h] = None; und.append("IR of %s cannot be read: %r" % (h, e))
                if MODS[h] is None: continue
                if a.only and a.only not in (getattr(mk, "name", "") or ""): continue
                tasks.append(((h, mk.__name__ if hasattr(mk, "__name__") else str(mk)), mk, a.nd or None, 30 if hit else max(150 if tier == "quick" else 420, getattr(mk, 'timeout', 0)), 15000 if tier == "quick" else 60000, None))
            results = run_tasks(tasks, hard=60 if hit else min(max(300 if tier == "quick" else 540, 60 + max([t[3] for t in tasks] + [0])), 700 - (time.time() - T0)))
            for lf in spec.get("lemmas", []):
                t = time.time()
                try: lem.append(lf())
                except Exception as e: und.append("lemma %s: %r" % (lf.__name__, e))
            for lf in spec.get("pycontracts", []):
                try: pyr.append(lf())
                except Exception as e: und.append("python contract %s: %s: %s" % (lf.__name__, type(e).__name__, str(e)[:300]))
        # ---- violations by native execution
        for n in nres:
            if n.get("fail"):
                kf = [k for k in known_findings(pid) if k[0] and k[0] == n["fail"].get("id")]
                path = os.path.join(rdir, "%s-%s.json" % (pid, n["driver"]))
                json.dump(dict(property=pid, kind="failing input on the real code", driver=n["driver"], command=n.get("cmd", "") + " --case %s" % n["fail"].get("case"), fail=n["fail"]), open(path, "w"), indent=1)
                viol = (path, "", n["fail"].get("msg", "")); break
            if n.get("error"): und.append("stand-in %s: %s" % (n["driver"], n["error"]))
        for k in known_findings(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
        # ---- (B) failing contracts: exact small-dimension decision
        bad = [(t, r) for t, r in zip(tasks, results) if not r["proved"]]
        bres = []
        if bad and viol is None:
            btasks = []
            for t, r in bad:
                mk = t[1]
                for nd in getattr(mk, "bounded_nd", (1, 2, 3)):
                    btasks.append((t[0], mk, nd, 60, 8000, dict(unroll=12)))
            bres = run_tasks(btasks, hard=min(120, 850 - (time.time() - T0)))
            for t, r in bad:
                mine = [b for b in bres if b["key"] == t[0]]
                ref = [b for b in mine if b["refuted"] and b["cuts"] == 0]
                exact = r["refuted"] and r["cuts"] == 0
                if ref or exact:
                    b = ref[0] if ref else r
                    path = os.path.join(rdir, "%s-%s.json" % (pid, b["name"].replace(":", "_").replace("<", "_").replace(">", "_").replace("/", "_").replace(" ", "_")))
                    json.dump(dict(property=pid, kind="failed proof obligation", contract=b["name"], specification=b["desc"], obligations=b["failed"], counterexample=b["ce"], dimension=b["nd"],
                                   verifier=dict(full=r["failed"], error=r["error"]), note="the native stand-ins of this property found no failing input"), open(path, "w"), indent=1)
                    viol = (path, " no-failing-input-found", "obligation failed: " + (b["failed"][0][0] if b["failed"] else "")); break
                und.append("%s: %s" % (r["name"], r["error"] or "; ".join("%s (%s) at %s" % (x[0], x[2], x[1]) for x in r["failed"][:3])))
        for l in pyr:
            if l["cex"] and viol is None:
                path = os.path.join(rdir, "%s-%s.json" % (pid, l["name"]))
                json.dump(dict(property=pid, kind="counterexample of a proof obligation, replayed on the real code", contract=l["name"], specification=l["desc"], obligations=l["failed"], failing_input=l["cex"]), open(path, "w"), indent=1)
                viol = (path, "", l["cex"])
            elif not l["proved"]: und.append("%s: %s" % (l["name"], l["error"] or l["failed"]))
        for l in lem:
            if not l["proved"]: und.append("lemma %s not proved" % l["name"])
        # ---- evidence
        nobl = sum(r["n"] for r in results) + sum(l["n"] for l in lem) + sum(l["n"] for l in pyr if not l["bounded"]); ndis = sum(r["discharged"] for r in results if r["error"] is None) + sum(l["discharged"] for l in lem) + sum(l["discharged"] for l in pyr if not l["bounded"])
        level = spec.get("level", "proof")
        cov = dict(obligations=nobl, discharged=ndis, checker_cmd="python3-vt check.py %s --tier %s (VC generator over clang-18 LLVM IR of /repo; z3 %s, cvc5 fallback)" % (pid, tier, __import__("z3").get_version_string()),
                   trusted_base=registry.TRUSTED + spec.get("trusted", []),
                   functions_under_contract=[dict(name=r["name"], specification=r["desc"], verified=r["proved"], obligations=r["n"], discharged=r["discharged"], loops_cut=r["cuts"], wall_s=r["wall"], solver_queries=r["queries"], solver_s=r["qtime"], backend=r["backend"],
                                                  bodies_executed=r["inlined"], callee_contracts=r["used"], library_models=r["models"], error=r["error"]) for r in results],
                   python_functions_under_contract=[{k: v for k, v in l.items()} for l in pyr],
                   lemmas=lem, solver_s=round(sum(r["qtime"] for r in results), 1), solver_queries=sum(r["queries"] for r in results),
                   bounded_standins=[{k: n.get(k) for k in ("driver", "evaluations", "distinct", "rule", "samples", "wall", "error")} for n in nres],
                   evaluations=sum(n.get("evaluations", 0) for n in nres), distinct_nontrivial=sum(n.get("distinct", 0) for n in nres), rule="; ".join(n.get("rule", "") for n in nres), samples=[s for n in nres for s in n.get("samples", [])][:6],
                   undecided=und, bounded_decisions=[dict(name=b["name"], nd=b["nd"], proved=b["proved"], refuted=b["refuted"], error=b["error"]) for b in bres],
                   explanation=spec.get("explanation", ""))
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=registry.ASSUME + spec.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=1 if viol else 0)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        for r in results:
            if a.v or not r["proved"]: print("  contract %-45s %s  %d/%d obligations, %d cuts, %.1fs %s" % (r["name"], "proved" if r["proved"] else "NOT PROVED", r["discharged"], r["n"], r["cuts"], r["wall"], r["error"] or ""))
            if a.v and r.get("tb"): print(r["tb"])
            for x in r["failed"][:6]: print("      %s: %s @ %s" % (x[2], x[0], x[1]))
        for n in nres: print("  stand-in %-16s %d cases, %d distinct non-trivial, %.1fs %s" % (n["driver"], n.get("evaluations", 0), n.get("distinct", 0), n.get("wall", 0), n.get("error") or ""))
        for u in und: print("  UNDECIDED " + u[:400])
        print("%s %s: %d of %d obligations discharged, %.1fs" % (pid, tier, ndis, nobl, time.time() - T0))
        if viol:
            print("  " + viol[2][:600]); print("VIOLATION property=%s replay=%s%s" % (pid, viol[0], viol[1])); sys.stdout.flush(); return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    try: rc = main()
    except SystemExit as e: raise
    except Exception:
        traceback.print_exc(); rc = 0
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        print("UNDECIDED property=%s (internal error of the check)" % pid)
        try: json.dump(dict(property=pid, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=dict(explanation="internal error: " + traceback.format_exc()[-800:]), wall_s=round(time.time() - T0, 2)), open(os.path.join(HERE, "evidence", pid + ".json"), "w"))
        except Exception: pass
    sys.stdout.flush(); os._exit(rc)
