"""C08: everything an honest prover publishes is masked by fresh uniform coins."""
from .common import *
from .c01 import prim_kinds, prim_trees

BOUNDS = {"quick": "and/or trees of up to 3 leaves (seventeen large ones: up to 40 parts or terms, 6 levels), every primitive alone and composed; one proof, two proofs by one statement "
          "object or by two over the same secrets; every linear combination (mod the group order) of all published numbers, and "
          "of all published precommitment points; all secrets, challenges and coins",
          "thorough": "as quick with 4-leaf trees and three proofs"}
ASSUMES = ["a coin counts when it is drawn by Bn.random() from a range at least as large as the group order"]


def publish(ctx, tree, st, p, kind):
    """One honest proof: (numbers, precommitment)."""
    if kind == "nizk":
        n = st.prove(p.dict, message=ctx.text("m"))
        return n.responses, n.precommitment
    prover = st.get_prover(p.dict)
    pre = prover.precommit()
    prover.commit()
    return prover.compute_response(ctx.int("c", 0, (1 << 128) - 1)), pre


def masked(ctx, tree, kinds, objects=False, how="ctor"):
    env = Env(ctx)
    p = Side(env, "p", how)
    st = p.build(tree)
    n0 = ctx.start_coins()
    ctx.distinct_queries()
    numbers, points_ = {}, {}
    for n, kind in enumerate(kinds):
        if objects and n:
            p = Side(env, "p", how)
            st = p.build(tree)
        resp, pre = publish(ctx, tree, st, p, kind)
        for path in positions(resp):
            x, q = at(resp, path), order_at(env, tree, path)
            ctx.check(x >= 0, "responses are not negative")
            ctx.check(x < (ctx.const(1 << 128) if q is None else q), "responses are reduced")
        published(ctx, env, tree, resp, pre, numbers, points_)
    for pub, what in ((numbers, "published numbers are masked by independent coins"),
                      (points_, "published points are masked by independent coins")):
        for q, xs in sorted(pub.items()):
            cs = [d for b, d in ctx.draws()[n0:] if int(b) >= q]
            ctx.check_masked(xs, cs, q, "%s (%d-bit group)" % (what, q.bit_length()))


def ranges(ctx, tree):
    """RangeOnly: the commitment it makes is masked as well."""
    zk = ctx.zk
    x = ctx.int("v", tree[0], tree[1] - 1)
    n0 = ctx.start_coins()
    st = zk.RangeOnlyStmt(tree[0], tree[1], zk.Secret(value=x))
    q = ctx.group(713).order()
    com = st.subproofs[0].lhs
    cs = [d for b, d in ctx.draws()[n0:] if int(b) >= int(q)]
    ctx.check_masked([com], cs, q, "the value commitment is masked")


def blind(ctx, n):
    """A BBS+ user's commitment to messages and its proof are masked."""
    ctx.distinct_queries()
    zk = ctx.zk
    env = Env(ctx)
    kp = env.keypair(n)
    q = env.bp.G1.order()
    msgs = [ctx.scalar("m", q) for _ in range(n)]
    n0 = ctx.start_coins()
    com = zk.BBSPlusSignatureCreator(kp.pk).commit(msgs)
    cs = [d for b, d in ctx.draws()[n0:] if int(b) >= int(q)]
    ctx.check_masked([com.com_message], cs, q, "the blinded message is masked")
    for x in com.com_nizk_proof.responses:
        ctx.check(x >= 0, "responses are not negative")
        ctx.check(x < q, "responses are reduced")
    ctx.check_masked(list(com.com_nizk_proof.responses), cs, q, "responses are masked by independent coins")
    com2 = zk.BBSPlusSignatureCreator(kp.pk).commit(msgs)
    cs = [d for b, d in ctx.draws()[n0:] if int(b) >= int(q)]
    ctx.check_masked([com.com_message, com2.com_message], cs, q, "two blinded messages are masked independently")


def cases(tier):
    nmax = 3 if tier == "quick" else 4
    out = []
    for n, t in enumerate(tree_cases(nmax)):
        k = ("nizk", "interactive")[n % 2]
        out.append(case("one %s %s" % (k, show(t)), "masked", tree=t, kinds=[k]))
        if len(leaves(t)) < 3 or tier != "quick" or n % 5 == 0:
            ks = [("nizk", "nizk"), ("interactive", "interactive"), ("nizk", "interactive")][n % 3]
            out.append(case("two %s %s" % ("+".join(ks), show(t)), "masked", tree=t, kinds=list(ks), objects=n % 2 == 0,
                            how=("ctor", "prove")[n % 2]))
    for t in (D(0), D(0, 1), D(0, 0), D(0, 1, 0), D(0, 1, 2)):
        for g in (713, 415, "G1", "GT"):
            for ks in (["nizk", "nizk"], ["interactive", "interactive"], ["nizk", "interactive", "nizk"]):
                out.append(case("runs %s %s %s" % ("+".join(ks), g, show(t)), "masked", tree=dict(t, g=g), kinds=ks))
    for k in prim_kinds(tier):
        heavy = 10 if k["k"] in "RPB" else 2
        for n, t in enumerate(prim_trees(k, tier)):
            if tier == "quick" and n > 5 and n % 2:
                continue
            out.append(case("one nizk " + show(t), "masked", tree=t, kinds=["nizk"], cost=heavy))
        for ks in (["nizk", "nizk"], ["interactive", "interactive"]):
            out.append(case("two %s %s" % ("+".join(ks), show(k)), "masked", tree=k, kinds=ks, cost=heavy))
        out.append(case("two objects %s" % show(k), "masked", tree=k, kinds=["nizk", "interactive"], objects=True, cost=heavy))
    for n, t in enumerate(obj_trees(tier)):
        out.append(case("object twice " + show(t), "masked", tree=t, kinds=["nizk"], cost=5))
        if n % 3 == 0 and (tier != "quick" or "D7" in show(t) or len(leaves(t)) < 4):
            out.append(case("object twice, two proofs " + show(t), "masked", tree=t, kinds=["nizk", "interactive"], cost=5))
    for ab in ((0, 2), (3, 8)):
        out.append(case("range only %s" % (ab,), "ranges", tree=ab))
    for n in (1, 2, 3):
        out.append(case("blind %d" % n, "blind", n=n))
    for n, (name, t) in enumerate(dict(big_trees(), **huge_trees(40)).items()):
        out.append(case("large " + name, "masked", tree=t, kinds=[("nizk", "interactive")[n % 2]], cost=10))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        for kind in ("nizk", "interactive"):
            out.append(case("curve %s %s" % (kind, show(t)), "masked", tree=t, kinds=[kind], cost=cost))
    return out
