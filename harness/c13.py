"""C13: an accepted proof of inequality shows knowledge of x with H0 = x*h0 and H1 != x*h1."""
from .common import *

BOUNDS = {"quick": "inequality statements (binding or not, groups 713, 415, G1, GT) alone and in and/or trees of up to 3 leaves (five of 5-7 leaves); all public "
          "points, precommitments, commitments, challenge pairs and responses; honest provers for false statements with every coin",
          "thorough": "as quick with trees of 4 leaves"}


def sound(ctx, tree, nizk):
    (sound_nizk if nizk else sound_interactive)(ctx, tree)


def false_statement(ctx, tree, flow):
    """The library's prover cannot make a proof of a false inequality, whatever coins it draws."""
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    v = Side(env, "v").build(tree)
    if flow:
        k, r = ctx.attempt(run_interactive, ctx, st.get_prover(), v.get_verifier())
        ctx.check(k == "exc" or not r[0], "a false inequality is not accepted")
    else:
        k, n = ctx.attempt(st.prove)
        ctx.check(k == "exc" or not ctx.accepts(v.verify, n), "a false inequality is not accepted")


def unity(ctx, tree, pos):
    """A precommitment equal to the neutral element is never accepted."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    pre = a.pre if pos else [a.pre]
    for k in pos[:-1]:
        pre = pre[k]
    l = [x for k, x in keyed(tree) if k == ".".join(["t"] + [str(i) for i in pos])][0]
    inf = env.group(l.get("g", DEF)).infinite()
    if pos:
        pre[pos[-1]] = inf
    else:
        a.pre = inf
    ctx.check(not a.run(ctx.int("c", 0, (1 << 128) - 1), a.responses()), "a neutral precommitment is not accepted")
    st = Side(env, "v").build(tree)
    v = st.get_verifier()
    v.process_precommitment(a.pre)
    n = ctx.zk.NIZK(ctx.int("C", 0, (1 << 256) - 1), a.responses(), a.pre, st.prehash_statement().digest())
    ctx.check(not ctx.accepts(Side(env, "v").build(tree).verify, n), "a neutral precommitment is not accepted")


def cases(tier):
    U = lambda b=0, i=0, **o: N(i, ok=0, bind=b, **o)
    d = lambda i, **o: D(i, ok=0, **o)
    ts = []
    for b in (0, 1):
        ts += [U(b), AND(U(b), d(0)), AND(d(0, g=713), U(b)), AND(U(b), d(1)), OR(U(b), d(1)), OR(d(1), U(b)), AND(U(b), U(b)), OR(U(b), U(b, 1)),
               AND(OR(U(b), d(1)), d(2)), OR(AND(U(b), d(0)), d(1)), AND(U(b), AND(d(0), d(1)))]
        for g in (415, "G1"):
            ts += [U(b, g=g), AND(U(b, g=g), d(0, g=g)), OR(U(b, g=g), d(1))]
    ts += [AND(U(1), d(0), d(0)), AND(D(0, 1, ok=0), U(1)), AND(U(1, 0), U(1, 1), d(0)), AND(U(1, g="G1"), d(0, g="G2")),
           AND(U(1), U(0), d(0)), AND(U(0), U(1), U(1, 1))]
    if tier != "quick":
        ts += [AND(OR(U(1), d(1)), AND(d(2), U(1, 2))), OR(OR(U(1), U(0)), AND(U(1, 3), d(3))), AND(U(1), d(0), U(1, 1), d(1)), U(0, g="GT"), U(1, g="GT")]
    out = []
    for t in ts:
        cost = len(leaves(t)) ** 2
        out.append(case("interactive " + show(t), "sound", tree=t, nizk=False, cost=cost))
        out.append(case("nizk " + show(t), "sound", tree=t, nizk=True, cost=cost))
        for k, l in keyed(t):
            if l["k"] == "N":
                out.append(case("unity %s %s" % (k, show(t)), "unity", tree=t, pos=[int(x) for x in k.split(".")[1:]], cost=cost))
    for b in (0, 1):
        for g in (713, 415, "G1"):
            f = N(0, bind=b, false=1, g=g)
            for t in (f, AND(f, D(1)), AND(D(0, g=g), f), AND(f, N(0, bind=b, g=g)), OR(f, D(1, ok=0)), AND(OR(D(1, ok=0), f), D(2)), AND(f, f)):
                for flow in (0, 1):
                    out.append(case("false flow%d %s" % (flow, show(t)), "false_statement", tree=t, flow=flow, cost=2))
    wide = [("wide", AND(*[d(i + 1) for i in range(6)], U(0))), ("wide, bound", AND(U(1), *[d(i) for i in range(6)])), ("or", OR(*[d(i + 1) for i in range(4)], U(1))),
            ("many", AND(*[U(1, i) for i in range(5)])), ("deep", AND(d(1), OR(d(2), AND(d(3), OR(d(4), U(0))))))]
    for name, t in wide:
        for z in (False, True):
            out.append(case("nizk%d large %s" % (z, name), "sound", tree=t, nizk=z, cost=30))
    for t in curve_trees(False):
        if t["k"] == "N":
            for z in (False, True):
                out.append(case("nizk%d curve %s" % (z, show(t)), "sound", tree=t, nizk=z, cost=2))
    return out
