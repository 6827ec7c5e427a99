"""C01: honest non-interactive proofs are accepted."""
from .common import *

BOUNDS = {"quick": "and/or trees with up to 3 leaves (all shapes, secret-sharing patterns and sets of known branches), "
          "representations with 1-3 terms; seventeen large statements (up to 40 terms or parts, 6 levels); all values of secrets, points, coins and branch choices",
          "thorough": "as quick with 4-leaf trees and every built-in and custom primitive in every position of 3-leaf trees"}


def nizk(ctx, tree, how="ctor", msg=True, wide=False, names=False, ints=False):
    env = Env(ctx, wide=wide)
    if ints:
        env.values = {i: v for i, v in enumerate(ints)}
    p = Side(env, "p", how)
    st = p.build(tree)
    m = ctx.text("m") if msg else ""
    n = st.prove(p.dict, message=m) if msg else st.prove(p.dict)
    v = Side(env, "v").build(tree)
    ctx.check(v.verify(n, message=m) if msg else v.verify(n), "an honest proof is accepted")


def refuses(ctx, tree):
    """With no provable alternative the library refuses instead of publishing a bad proof."""
    env = Env(ctx)
    p = Side(env, "p", "ctor")
    st = p.build(tree)
    k, n = ctx.attempt(st.prove)
    if k == "ok":
        v = Side(env, "v").build(tree)
        ctx.check(v.verify(n), "a proof that is produced is accepted")
    else:
        ctx.check(True, "refused")


def prim_kinds(tier):
    ks = [N(0), N(0, bind=1), P(1), P(2), R(2, 5), R(3, 4), B(0), B(0, 1)]
    for pre in ("none", "empty", "point", "list"):
        for inner in ("dl", "and", "or"):
            ks.append(X(0, pre=pre, inner=inner))
    return ks


def prim_trees(k, tier):
    u = dict(k, ok=0)
    k2 = dict(k, s=[7 + i for i in k["s"]])
    u2 = dict(k2, ok=0)
    d, e = D(5), D(5, ok=0)
    ts = [k, AND(k, d), AND(d, k), OR(k, e), OR(e, k), OR(u, d), OR(d, u), OR(k, d)]
    ts += [OR(u, k2), AND(k, k2)]
    ts += [OR(AND(k, d), D(6, ok=0)), OR(AND(u, d), D(6)), AND(OR(k, e), D(6)), AND(OR(u, d), D(6))]
    if k["s"] and (k["k"] != "N" or k.get("bind")) and k["k"] != "B" and k.get("inner") != "or":
        ts += [AND(k, D(k["s"][0])), AND(D(k["s"][0], 6), k)]
    return ts


def cases(tier):
    out = []
    for t in tree_cases(3 if tier == "quick" else 4):
        out.append(case("nizk " + show(t), "nizk", tree=t, cost=len(leaves(t))))
    for t in (D(0), D(0, 1), D(0, 0), D(0, 1, 2), D(0, 1, 0), D(0, 1, same=1)):
        for how in ("ctor", "prove"):
            out.append(case("nizk %s %s wide" % (show(t), how), "nizk", tree=t, how=how, wide=True))
        out.append(case("nizk no message " + show(t), "nizk", tree=t, msg=False))
    for k in prim_kinds(tier):
        for t in prim_trees(k, tier):
            out.append(case("nizk " + show(t), "nizk", tree=t, cost=6 + 10 * (k["k"] in "RPB"), how="ctor" if k["k"] != "N" else "prove"))
    for n, t in enumerate(obj_trees(tier)):
        out.append(case("nizk object twice " + show(t), "nizk", tree=t, cost=8, how=("ctor", "prove")[n % 2] if t["c"][0]["k"] != "R" else "ctor"))
    out.append(case("nizk small ints", "nizk", tree=AND(D(0), D(1, 0)), ints=[5, 0]))
    out.append(case("nizk negative ints", "nizk", tree=OR(D(0), D(1)), ints=[-3, 1], how="prove"))
    for n, (name, t) in enumerate(dict(big_trees(), **huge_trees(40)).items()):
        out.append(case("nizk large %s" % name, "nizk", tree=t, how=("ctor", "prove")[n % 2], cost=10))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        out.append(case("nizk curve " + show(t), "nizk", tree=t, cost=cost))
    return out
