"""C02: honest interactive runs are accepted, for every challenge the verifier may draw."""
from .common import *
from .c01 import prim_kinds, prim_trees

BOUNDS = {"quick": "the statement trees of C01 run through the four-message flow (explicitly and by the protocol runner); "
          "seventeen large statements as in C01; every challenge value; all values of secrets, points, coins and branch choices",
          "thorough": "as quick with 4-leaf trees"}


def flow(ctx, tree, runner=False, how="ctor", names=False):
    env = Env(ctx)
    ps = Side(env, "p", how)
    st = ps.build(tree)
    prover = st.get_prover(ps.dict)
    verifier = Side(env, "v").build(tree).get_verifier()
    n0 = ctx.ndraws()
    if runner:
        ok = ctx.zk.SigmaProtocol(verifier, prover).verify()
        ctx.check(ok, "an honest run is accepted")
        return
    ok, pre, com, ch, resp = run_interactive(ctx, prover, verifier)
    ctx.check(ok, "an honest run is accepted")
    ctx.check(ch >= 0, "challenges are not negative")
    ctx.check(ch < ctx.const(1 << 128), "challenges are in the challenge space")


def chosen(ctx, tree):
    """The challenge is whatever the verifier's generator returns, including 0 and the largest one."""
    env = Env(ctx)
    ps = Side(env, "p")
    prover = ps.build(tree).get_prover()
    verifier = Side(env, "v").build(tree).get_verifier()
    pre = prover.precommit()
    verifier.process_precommitment(pre)
    com = prover.commit()
    c = ctx.int("c", 0, (1 << 128) - 1)
    ctx.script([c])
    ch = verifier.send_challenge(com)
    ctx.check(ch == c, "the challenge is the drawn value")
    ctx.check(verifier.verify(prover.compute_response(ch)), "an honest run is accepted")


def same_object(ctx, tree):
    """Prover and verifier made from one statement object."""
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    prover, verifier = st.get_prover(), st.get_verifier()
    ok = run_interactive(ctx, prover, verifier)[0]
    ctx.check(ok, "an honest run is accepted")


def again(ctx, tree, prover_again=False):
    """Two runs one after the other by the same statement objects, the second one after a non-interactive proof."""
    ctx.distinct_queries()
    env = Env(ctx)
    st, vt = Side(env, "p").build(tree), Side(env, "v").build(tree)
    for n in range(2):
        ok = run_interactive(ctx, st.get_prover(), vt.get_verifier())[0]
        ctx.check(ok, "an honest run is accepted")
        if n == 0 and prover_again:
            ctx.check(vt.verify(st.prove()), "an honest proof is accepted")


def cases(tier):
    out = []
    for n, t in enumerate(tree_cases(3 if tier == "quick" else 4)):
        out.append(case("flow " + show(t), "flow", tree=t, runner=n % 3 == 2, how="prove" if n % 2 else "ctor", cost=len(leaves(t))))
        if len(leaves(t)) < 3:
            out.append(case("chosen " + show(t), "chosen", tree=t))
            out.append(case("same object " + show(t), "same_object", tree=t))
            out.append(case("again " + show(t), "again", tree=t, prover_again=bool(n % 2)))
    for n, t in enumerate(obj_trees(tier)):
        out.append(case("flow object twice " + show(t), "flow", tree=t, cost=8, runner=n % 3 == 2))
    for k in prim_kinds(tier):
        for n, t in enumerate(prim_trees(k, tier)):
            out.append(case("flow " + show(t), "flow", tree=t, cost=6 + 10 * (k["k"] in "RPB"), runner=n % 3 == 1))
        out.append(case("chosen " + show(k), "chosen", tree=k))
        out.append(case("same object " + show(k), "same_object", tree=k))
        for n, t in enumerate([k, AND(k, D(5)), OR(D(5, ok=0), k), OR(k, D(5, ok=0))]):
            if (k["k"] in "RB" or k.get("n", 1) > 1) and n > 1:
                continue
            out.append(case("again " + show(t), "again", tree=t, prover_again=n == 1, cost=8 if k["k"] in "RPB" else 2))
    for n, (name, t) in enumerate(dict(big_trees(), **huge_trees(40)).items()):
        out.append(case("flow large %s" % name, "flow", tree=t, how=("ctor", "prove")[n % 2], runner=n % 3 == 2, cost=10))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        out.append(case("flow curve " + show(t), "flow", tree=t, runner=n % 3 == 2, cost=cost))
    return out
