"""Exploration of one harness case, replay of counterexamples, validation of passing paths."""

import hashlib
import json
import os
import time
import traceback

from .ctx import SymCtx, RealCtx, RealFailed, Skip, DoesNotEnd
from .engine import (CheckFailed, EngineStop, Inconclusive, Path, PathInfeasible, Stats, Unsupported)


def replay(harness, params, model, programmed=False, seed=7, fresh_draws=False, short=None, flip=None):
    """Run the harness concretely.  Returns (outcome, detail, ctx)."""
    if fresh_draws:
        model = dict(model, draws=[])
    ctx = RealCtx(model, programmed=programmed, seed=seed)
    ctx.short = short
    ctx.fresh, ctx.flip = fresh_draws, flip
    with ctx:
        try:
            harness(ctx, **params)
            return "passed", "", ctx
        except RealFailed as e:
            return "failed", e.label + (" " + e.detail if e.detail else ""), ctx
        except Skip:
            return "passed", "", ctx
        except PathInfeasible:
            return "assumption", "", ctx
        except EngineStop as e:
            return "stop", repr(e), ctx
        except DoesNotEnd as e:
            return "exception", "%s: %s" % (type(e).__name__, e), ctx
        except Exception as e:
            if os.environ.get("TB"):
                traceback.print_exc()
            return "exception", "%s: %s" % (type(e).__name__, str(e)[:300]), ctx


def confirm(harness, params, label, model, info=None):
    """Does the real code show the failure?  Returns a description or None."""
    if info is not None:
        model["info"] = info
        if "rank" in info:
            return confirm_rank(harness, params, label, model, info)
        vals = []
        for seed in range(11, 11 + 90):
            out, detail, ctx = replay(harness, params, model, seed=seed, fresh_draws=True)
            if out == "failed":
                return "failed: " + detail
            v = ctx.masked.get(label)
            if v is None:
                return None
            vals.append(v)
            if len(vals) == 4 and vals[0][1] is None:
                break
        what = "the published combination %s of %s" % (str(info["lambda"])[:200], label)
        if len(set(vals)) == 1:
            return what + " does not depend on the prover's coins (same value in %d runs with fresh coins)" % len(vals)
        q = vals[0][1]
        if q is not None:
            xs = sorted({v for v, _ in vals})
            gap = max([b - a for a, b in zip(xs, xs[1:])] + [xs[0] + q - xs[-1]])
            if (q - gap) * 10 < q * 6:
                return what + " is not uniform: %d runs with fresh coins fall into an interval of length 2^%d of 2^%d values" % (
                    len(vals), (q - gap).bit_length(), q.bit_length())
        # coins with fewer values than the group order do not count: keep them
        vals = set()
        for seed in range(11, 15):
            out, detail, ctx = replay(harness, params, model, seed=seed, fresh_draws=True, short=info["q"])
            vals.add(ctx.masked.get(label))
        if len(vals) == 1 and None not in vals:
            return what + " is determined by coins with fewer values than the group order (same value in 4 runs that share these)"
        return None
    for programmed in (False, True):
        out, detail, ctx = replay(harness, params, model, programmed=programmed)
        if out in ("failed", "exception"):
            return ("" if not programmed else "[oracle values from the model] ") + out + ": " + detail
    return None


def confirm_rank(harness, params, label, model, info):
    """Several published values depend on each other for given public values: on the real code, fewer coins
    than values have an influence on them."""
    out, detail, ctx = replay(harness, params, model, seed=11, fresh_draws=True)
    if out == "failed":
        return "failed: " + detail
    base, draws = ctx.masked.get(label), list(ctx._drawn)
    if base is None or ctx.own_coins is None or len(set(base)) != len(base):
        return None
    hit = 0
    for k in range(ctx.own_coins, len(draws)):
        if draws[k][0] >= info["q"]:
            out, detail, c2 = replay(harness, params, model, seed=11, fresh_draws=True, flip=k)
            v = c2.masked.get(label)
            if v is None:
                return None
            hit += v != base
    if hit < len(base):
        return "%s: %d published values depend on %d coins only" % (label, len(base), hit)
    return None


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.violations = []
        self.errors = []
        self.stats = Stats()
        self.checks = 0
        self.labels = {}
        self.samples = []
        self.wall = 0.0
        self.ended = 0

    def dict(self):
        return {"name": self.name, "status": self.status, "violations": self.violations, "errors": self.errors,
                "stats": self.stats.dict(), "checks": self.checks, "samples": self.samples, "wall": self.wall,
                "ended": self.ended}


def run_case(name, harness, params, max_paths=20000, budget_s=600, validate=2, min_checks=1, debug=False):
    """Explore every path of harness(ctx, **params)."""
    res = CaseResult(name)
    st = res.stats
    t0 = time.time()
    trace = []
    seen_viol = set()
    left = {True: validate, False: min(validate, 1)}   # paths to validate: complete ones, others
    while True:
        path = Path(trace, st, seed=1)
        ctx = SymCtx(path)
        st.paths += 1
        failed = None
        full = False
        try:
            harness(ctx, **params)
            res.ended += 1
            full = True
        except Skip:
            pass
        except PathInfeasible:
            st.pruned += 1
        except CheckFailed as e:
            failed = (e.label, e.model, e.info)
        except Unsupported as e:
            res.errors.append("unsupported: %s" % e)
        except EngineStop as e:
            res.errors.append("stop: %r" % e)
        except DoesNotEnd as e:
            failed = ("unexpected %s: %s" % (type(e).__name__, e), {"inputs": {}, "choices": [v for _, v in path.choices]}, None)
            try:
                failed = (failed[0], ctx.path_model(), None)
            except EngineStop:
                pass
            trace[:] = [[t[0], []] for t in trace]      # explore no further
        except Exception as e:
            if debug and st.paths < (99 if os.environ.get("TB") else 3):
                traceback.print_exc()
            lab = "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
            try:
                failed = (lab, ctx.path_model(), None)
            except EngineStop:
                failed = (lab, None, None)
        res.checks += ctx.checks
        if failed is not None:
            label, model, info = failed
            if model is None:
                res.errors.append("check %r not discharged and no exact model found" % label)
            else:
                st.replays += 1
                how = confirm(harness, params, label, model, info)
                if how is None:
                    res.errors.append("counterexample to %r did not reproduce on the real code" % label)
                    if debug:
                        print("SPURIOUS", label, json.dumps(model)[:2000])
                elif label not in seen_viol:
                    seen_viol.add(label)
                    res.violations.append({"case": name, "label": label, "how": how, "model": model})
        elif left[full] > 0 and (full or res.ended):
            left[full] -= 1
            model = None
            try:
                model = ctx.path_model()
            except EngineStop:
                pass
            if model is None:
                st.replay_skipped += 1
            else:
                st.replays += 1
                out, detail, rctx = replay(harness, params, model)
                if out in ("failed", "exception") and any(True for _ in path.hashes):
                    out2, d2, rctx2 = replay(harness, params, model, programmed=True)
                    if out2 == "passed":
                        out, detail, rctx = out2, d2, rctx2
                if out in ("failed", "exception"):
                    lab = detail
                    if lab not in seen_viol:
                        seen_viol.add(lab)
                        res.violations.append({"case": name, "label": lab, "how": "replay of a solver model of a path "
                                               "on the real code " + out + ": " + detail, "model": model})
                elif out == "passed":
                    so = [(l, _plain(v)) for l, v in ctx.observed]
                    ro = [(l, _plain(v)) for l, v in rctx.observed]
                    if so != ro and not any(v == "?" for _, v in so):
                        res.errors.append("encoding disagrees with the real code: %r vs %r" % (so[:5], ro[:5]))
                    if len(res.samples) < 2:
                        res.samples.append({"case": name, "inputs": {k: _short(v) for k, v in model["inputs"].items()},
                                            "draws": len(model["draws"]), "choices": model["choices"],
                                            "observed": [[l, str(v)] for l, v in ro][:8]})
        # backtrack
        while trace and not trace[-1][1]:
            trace.pop()
        if not trace:
            break
        trace[-1][0] = trace[-1][1].pop(0)
        if st.paths >= max_paths or time.time() - t0 > budget_s:
            res.errors.append("exploration not completed (%d paths)" % st.paths)
            break
    if not res.violations and not res.errors and res.checks < min_checks:
        res.errors.append("vacuous: no path reached its assertions")
    res.wall = time.time() - t0
    if res.violations:
        res.status = "violation"
    elif res.errors:
        res.status = "error"
    return res


def _plain(v):
    if isinstance(v, (bool, str, type(None))):
        return v
    if isinstance(v, int):
        return v
    return "?"


def _short(v):
    s = str(v)
    return s if len(s) <= 24 else s[:10] + ".." + s[-6:] + "(%d digits)" % len(s)


def prove_summaries():
    """Prove the function summaries on the current source (called before any case runs)."""
    from . import ctx as c
    c.Summaries.gt_mul = False
    try:
        r = run_case("summary", c.gt_mul_lemma, {}, max_paths=50, budget_s=20, validate=0)
        c.Summaries.gt_mul = r.status == "ok" and r.stats.pruned == 0
    except Exception:
        pass
    return c.Summaries.gt_mul
