#!/opt/venv/bin/python
"""check.py Cxx [--replay FILE] : decide one property on /repo's current tree."""
import sys
import os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
import argparse
import fnmatch
import hashlib
import importlib
import json
import signal
import multiprocessing as mp
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")

CASELIMIT = float(os.environ.get("VERIF_CASELIMIT", "300"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))

TRUSTED = [
    "pyvc: path exploration by re-execution under CPython, numpy/scipy/pandas surface model (pyvc/symnp.py), normal-form prover (pyvc/norm.py), interval prover (pyvc/evalnp.py)",
    "machine arithmetic treated as real arithmetic (coefficients as the doubles in the tables; proof tolerance 1e-7 in the compared, mostly logarithmic, quantities)",
    "numpy's own indexing, broadcasting and file parsing (executed, not modelled); CPython 3.12",
    "the contracts themselves and the coefficient tables pinned in contracts/tables",
]


def _init(seed, deadline):
    global SEED, DEADLINE
    SEED, DEADLINE = seed, deadline


def _alarm(sig, frame):
    from pyvc import contract
    raise contract.CaseTimeout()


def _run(i):
    from pyvc import contract
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(20.0, min(CASELIMIT, DEADLINE - time.time())))
    try:
        return _run1(i)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run1(i):
    from pyvc import contract
    r = contract.verify_case(CASES[i], SEED, DEADLINE, cross=CROSS)
    return i, r.__dict__


def run_all(order, j, seed, deadline):
    """All cases in forked workers; what a dead worker leaves undone is checked (bounded) in this process."""
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    ex = ProcessPoolExecutor(min(j, max(1, len(order))), mp.get_context("fork"), _init, (seed, deadline))
    done = set()
    try:
        fs = [ex.submit(_run, i) for i in order]
        for f in as_completed(fs):
            i, r = f.result()
            done.add(i)
            yield i, r
        ex.shutdown()
    except BrokenProcessPool:
        _init(seed, deadline)
        for i in order:
            if i not in done:
                CASES[i].bounded = True
                yield _run(i)
    except GeneratorExit:
        for p in list(ex._processes.values()):
            p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)
        raise


def known():
    try:
        with open(os.path.join(HERE, "known-findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def match_known(prop, v, kf):
    for k in kf.get("known", []):
        if k["property"] == prop and fnmatch.fnmatchcase(v["case"], k["case"]) and fnmatch.fnmatchcase(v["obligation"], k["obligation"]):
            return k
    return None


def main():
    global CASES, CROSS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from pyvc import load, selftest
        return selftest.run()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    mod = importlib.import_module("contracts." + prop.lower())
    from pyvc import contract, load
    CASES = [c for c in mod.cases(tier) if a.only in c.name]
    CROSS = 3 if tier == "quick" else 25
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        c = next(c for c in CASES if c.name == rp["case"])
        if rp.get("input") is None:
            print(json.dumps(rp, indent=1))
            return 1
        fails, _ = contract.run_concrete(c, rp["input"])
        for lb, msg in (fails or [])[:20]:
            print("FAILS %s: %s" % (lb, msg))
        print("replayed: %s" % ("violated" if fails else "holds"))
        return 1 if fails else 0
    load_error = None
    try:
        load.concrete()
    except Exception as e:
        load_error = "importing pygmm fails: %s: %s" % (type(e).__name__, e)
    results = []
    nviol = 0
    if load_error is None:
        try:
            load.symbolic()
        except Exception as e:
            # the package itself imports; only the engine cannot load it: bounded stand-in for everything
            print("note: engine cannot load the package (%s: %s); bounded checks only" % (type(e).__name__, str(e)[:300]))
            for c in CASES:
                c.bounded = True
        deadline = t0 + (BUDGET if tier == "quick" else 3 * BUDGET)
        order = sorted(range(len(CASES)), key=lambda i: -getattr(CASES[i], "weight", 1))
        for i, r in run_all(order, a.j, seed, deadline):
            if True:
                results.append(r)
                nviol += len(r["violations"])
                if a.v:
                    print("  %-60s %d/%d paths=%d t=%.1fs %s %s" % (r["case"][:60], r["discharged"], r["obligations"], r["paths"], r["time"],
                                                               "bounded(%d): %s" % (r["bounded_points"], r["bounded_reason"][:200]) if r["bounded"] else "", "VIOL" if r["violations"] else ""), flush=True)
                if nviol >= 12:
                    break
    kf = known()
    viols = [dict(v) for r in results for v in r["violations"]]
    if load_error:
        viols.append(dict(case="package import", obligation="import pygmm", input={}, message=load_error, fails=[], verifier=None))
    fresh, old = [], {}
    for v in viols:
        k = match_known(prop, v, kf)
        if k:
            old.setdefault(k["what"], v)
        else:
            fresh.append(v)
    for what in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ob = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    back = {}
    for r in results:
        for k, n in r["backend"].items():
            back[k] = back.get(k, 0) + n
    bnd = [r for r in results if r["bounded"]]
    fns = sorted({f for r in results for f in r["fns"]})
    bfn = sorted({f for r in bnd for f in r["fns"]})
    samples = [r["sample"] for r in results if r.get("sample")][:3]
    if not results or (ob == 0 and not bnd and not fresh):
        print("no obligation was generated: vacuous")
        return 3
    cov = dict(obligations=ob, discharged=dis, checker_cmd="/opt/venv/bin/python /verif/check.py %s" % prop,
               trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
               backends=back, functions_under_contract=fns, cases=len(results), paths=sum(r["paths"] for r in results),
               paths_covered_by_a_concrete_run=sum(r["covered"] for r in results), case_splits=sum(r["splits"] for r in results),
               solver_seconds=round(sum(r["solver_time"] for r in results), 2),
               cross_checked_values=sum(r["cross"] for r in results),
               bounded_cases=len(bnd), bounded_points=sum(r["bounded_points"] for r in bnd),
               bounded_functions=bfn, bounded_reasons=sorted({r["bounded_reason"][:160] for r in bnd})[:12],
               cases_listed=sorted(r["case"] for r in results)[:400], samples=samples)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov,
              assumptions=list(getattr(mod, "ASSUME", [])) + ["inputs range over the boxes stated in the contract cases (the documented limits where declared)"],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    lvl = getattr(mod, "LEVEL", None)
    if lvl:
        ev["level"] = lvl
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d cases, %d paths; %d cases bounded (%d points); %d values cross-checked; %.1f s"
          % (prop, dis, ob, len(results), cov["paths"], len(bnd), cov["bounded_points"], cov["cross_checked_values"], time.time() - t0))
    if not fresh:
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    fresh.sort(key=lambda v: v.get("input") is None)
    for v in fresh[:6]:
        v["property"] = prop
        v["replay_cmd"] = "/opt/venv/bin/python /verif/check.py %s --replay <this file>" % prop
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        if v.get("input") is not None:
            print("  %s | %s | %s at %s" % (v["case"], v["obligation"], v.get("message"), v["input"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("  %s | %s | not discharged: %s" % (v["case"], v["obligation"], str(v.get("verifier"))[:300]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
