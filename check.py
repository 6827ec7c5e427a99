#!/opt/venv/bin/python
"""Decide one property: explore all its cases symbolically, let z3 discharge every assertion.

    check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [-j N] [--debug]
    check.py --replay FILE          run a saved counterexample on the real code

Exit 0: held on everything explored.  Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the check itself could not decide enough to say anything.
"""

import sys

sys.dont_write_bytecode = True

import argparse
import importlib
import json
import multiprocessing as mp
import os
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

import warnings

warnings.simplefilter("ignore")

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line[len("finding: "):].split(" | "))
                if f.get("property") == prop:
                    out.append(f)
    return out


def _init():
    from symex import loader
    loader.monitor_functions()
    import z3  # noqa: F401
    import sympy  # noqa: F401
    from symex import run
    return run.prove_summaries()


def _work(args):
    modname, idx, tier, debug = args
    from symex import loader, run
    mod = importlib.import_module("harness." + modname)
    case = mod.cases(tier)[idx]
    r = run.run_case(case["name"], getattr(mod, case["fn"]), case["params"],
                     max_paths=case.get("max_paths", 20000), budget_s=case.get("budget", 240),
                     validate=case.get("validate", 1), debug=debug)
    d = r.dict()
    d["fn"], d["params"], d["idx"] = case["fn"], case["params"], idx
    d["functions"] = sorted(loader.executed)
    d["cost"] = case.get("cost", 1)
    return d


def do_replay(path):
    from symex import run
    d = json.load(open(path))
    mod = importlib.import_module("harness." + d["module"])
    how = run.confirm(getattr(mod, d["fn"]), d["params"], d["label"], d["model"], d["model"].get("info"))
    print("property=%s case=%s label=%s" % (d["property"], d["case"], d["label"]))
    print("replay on the real code: %s" % (how or "not reproduced"))
    return 1 if how else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--stride", type=int, default=1, help="every k-th case only")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)

    t0 = time.time()
    mod = importlib.import_module("harness." + a.prop.lower())
    cases = mod.cases(a.tier)
    jobs = [(a.prop.lower(), n, a.tier, a.debug) for n, c in enumerate(cases)
            if not a.case or a.case in c["name"]]
    jobs.sort(key=lambda j: -cases[j[1]].get("cost", 1))
    if a.stride > 1:
        jobs = jobs[::a.stride]
    part = bool(a.case) or a.stride > 1
    known0 = known_findings(a.prop)
    deadline = t0 + (float(os.environ.get("VERIF_WALL", 0)) or (600 if a.tier == "quick" else 3000))
    results, undecided = [], []
    viol = None
    summary = _init()
    if a.j == 1 or len(jobs) == 1:
        for j in jobs:
            r = _work(j)
            results.append(r)
            if any(not is_known(v, known0) for v in r["violations"]) and not a.keep_going:
                break
            if time.time() > deadline:
                undecided.append("out of time")
                break
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(a.j, maxtasksperchild=40)
        pend = {j[1]: pool.apply_async(_work, (j,)) for j in jobs}
        stop = False
        while pend and not stop:
            progressed = False
            for i, h in list(pend.items()):
                if h.ready():
                    progressed = True
                    del pend[i]
                    try:
                        r = h.get()
                    except Exception as e:
                        r = {"name": cases[i]["name"], "status": "error", "violations": [], "errors": ["worker: %r" % e],
                             "stats": {}, "checks": 0, "samples": [], "wall": 0, "ended": 0, "functions": [],
                             "fn": cases[i]["fn"], "params": cases[i]["params"], "idx": i}
                    results.append(r)
                    if any(not is_known(v, known0) for v in r["violations"]) and not a.keep_going:
                        stop = True
            if time.time() > deadline:
                for i in pend:
                    undecided.append(cases[i]["name"] + ": out of time")
                break
            if not progressed:
                time.sleep(0.01)
        pool.terminate()
    results.sort(key=lambda r: r["idx"])

    known = known_findings(a.prop)
    tot = {}
    funcs = set()
    samples = []
    checks = ended = 0
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r["functions"])
        checks += r["checks"]
        ended += r["ended"]
        for s in r["samples"][:1]:
            if len(samples) < 6:
                samples.append(s)
        for e in r["errors"]:
            undecided.append(r["name"] + ": " + e)
        for v in r["violations"]:
            kf = is_known(v, known)
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, kf.get("what", v["label"])))
            elif viol is None:
                viol = (r, v)
    nviol = sum(1 for r in results for v in r["violations"] if not is_known(v, known))
    wall = time.time() - t0
    ok = [r for r in results if r["status"] == "ok"]
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": tot.get("replays", 0),
            "samples": samples or [{"note": "no path model was produced"}],
            "cases": len(results), "cases_decided": len(ok),
            "paths_completed": ended, "paths_pruned": tot.get("pruned", 0), "forks": tot.get("forks", 0),
            "assertions_discharged": checks,
            "queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0),
            "unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0.0), 3),
            "branches_refuted_after_rewriting": tot.get("confirmed", 0),
            "branches_settled_by_rewriting_only": tot.get("rewriter_only", 0),
            "path_models_not_found": tot.get("replay_skipped", 0),
            "functions_encoded": sorted(funcs),
            "function_summaries_proved_and_used": ["zksk.pairings.AdditivePoint.__mul__"] if summary else [],
            "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, getattr(mod, "BOUNDS", "")) if isinstance(
                getattr(mod, "BOUNDS", ""), dict) else mod.BOUNDS,
            "undecided": undecided[:50],
        },
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not part:
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d decided), %d paths, %d assertions, %d queries (%d unsat, %d sat, %d unknown), "
          "%d replays, solver %.1f s, wall %.1f s" % (
              a.prop, a.tier, len(results), len(ok), tot.get("paths", 0), checks, tot.get("queries", 0),
              tot.get("unsat", 0), tot.get("sat", 0), tot.get("unknown", 0), tot.get("replays", 0),
              tot.get("solver_s", 0.0), wall))
    for u in undecided[:200 if a.debug else 12]:
        print("UNDECIDED " + u)
    if a.debug:
        for r in sorted(results, key=lambda r: -r["wall"])[:40]:
            print("  %.2fs %s paths=%s" % (r["wall"], r["name"], r["stats"].get("paths")))
    if viol is not None:
        r, v = viol
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, a.prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "module": a.prop.lower(), "case": r["name"], "fn": r["fn"], "params": r["params"],
                       "label": v["label"], "how": v["how"], "model": v["model"]}, f, indent=1)
        print("case %s: %s" % (r["name"], v["label"]))
        print("  " + v["how"])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if not results or len(ok) * 2 < len(cases if not part else jobs):
        print("ERROR: most cases could not be decided")
        return 2
    return 0


def is_known(v, known):
    for f in known:
        if f.get("case") == v["case"] and f.get("label") == v["label"]:
            return f
    return None


ASSUMPTIONS = [
    "petlib big numbers are exact integers and petlib/bplib group elements are their discrete logarithms in groups of "
    "the real prime orders (stand-ins compared with the real libraries by selfcheck.py, and by replaying path models)",
    "SHA-256 is a collision-free random oracle of the exact bytes hashed",
    "Bn.random() returns an arbitrary value of [0, bound), except 0 when the bound has more than 200 bits (an event of "
    "probability below 2^-200, for which some honest proofs do fail); choices of random.SystemRandom are arbitrary",
]

if __name__ == "__main__":
    sys.exit(main())
