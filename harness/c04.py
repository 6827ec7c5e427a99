"""C04: soundness of disjunctions, including malformed sets of sub-challenges."""
from .common import *

BOUNDS = ("and/or trees with 2-3 leaves containing a disjunction, plus disjunctions of 4 branches and of two-term "
          "representations; sub-challenges any integers up to 2^530 in absolute value; one sub-challenge or response too "
          "many or too few at the outer disjunction; all public values, commitments, challenge pairs and responses; "
          "interactive verifier, and non-interactive verifier by re-programming the oracle; selected trees with up to 15 leaves, 10 branches "
          "and 6 levels")


def reshape(ctx, tree, r, dch, drs, tag):
    """Add or drop sub-challenges and responses of the outermost disjunction (sums of those too
    many are arbitrary numbers)."""
    if tree["k"] == "and":
        return [reshape(ctx, s, x, dch, drs, tag) if s["k"] in ("or", "and") else x for s, x in zip(tree["c"], r)]
    ch, rs = list(r[0]), list(r[1])
    if dch < 0:
        ch = ch[:dch]
    for _ in range(dch):
        ch.append(ctx.int("x" + tag, -W, W))
    if drs < 0:
        rs = rs[:drs]
    for _ in range(drs):
        rs.append(fresh(ctx, rs[-1], "y" + tag))
    return (ch, rs)


def interactive(ctx, tree, dch=0, drs=0):
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    c1, c2 = challenges(ctx)
    r1, r2 = a.responses("r"), a.responses("s")
    if dch or drs:
        r1, r2 = reshape(ctx, tree, r1, dch, drs, "r"), reshape(ctx, tree, r2, dch, drs, "s")
    if not a.run(c1, r1):
        ctx.check(True, "rejected")
        raise Skip()
    if not a.run(c2, r2):
        raise Skip()
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, None),
              "two accepted answers to one commitment give a witness for some branch")


def nizk(ctx, tree, dch=0, drs=0):
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    m = ctx.text("m")
    out = []
    for k in (1, 2):
        ctx.fork_oracle(k)
        st = Side(env, "v").build(tree)
        c = ctx.int("c%d" % k, 0, (1 << 256) - 1)
        r = a.responses("r")
        if dch or drs:
            r = reshape(ctx, tree, r, dch, drs, "r%d" % k)
        v = st.get_verifier()
        v.process_precommitment(a.pre)
        n = ctx.zk.NIZK(c, r, a.pre, st.prehash_statement().digest())
        if not ctx.accepts(Side(env, "v").build(tree).verify, n, m):
            ctx.check(True, "rejected")
            raise Skip()
        out.append((c, r, ctx.last_query()))
    (c1, r1, q1), (c2, r2, q2) = out
    ctx.assume(ctx.same_query(q1, q2))
    # digests are longer than challenges of disjunctions: they count modulo 2^128
    ctx.assume((c1 - c2) % ctx.const(1 << 128) != 0)
    q = env.leaf(first_leaf(tree), leaves(tree)[0])["q"]
    ctx.assume((c1 - c2) % q != 0)
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, None),
              "two accepted proofs with the same oracle query give a witness for some branch")


def first_leaf(t, key="t"):
    return first_leaf(t["c"][0], key + ".0") if "c" in t else key


def or_trees(n):
    for sh in shapes(n):
        if "or" in repr(sh):
            for pat in patterns(sh, n):
                yield fill(sh, [D(i, ok=0) for i in pat])


def cases(tier):
    ts = list(or_trees(2)) + list(or_trees(3))
    ts += [OR(*[D(i, ok=0) for i in range(4)]), OR(D(0, 1, ok=0), D(1, 2, ok=0)), OR(D(0, ok=0, g="G1"), D(1, ok=0, g="G1")),
           OR(D(0, ok=0), D(1, ok=0, g=415)), OR(D(0, ok=0, g="GT"), D(0, ok=0, g="G2"))]
    if tier != "quick":
        ts += list(or_trees(4))
    out = []
    for t in ts:
        out.append(case("interactive " + show(t), "interactive", tree=t, cost=len(leaves(t)) * 2))
        out.append(case("nizk " + show(t), "nizk", tree=t, cost=len(leaves(t))))
    for t in (OR(D(0, ok=0), D(1, ok=0)), AND(D(0, ok=0), OR(D(1, ok=0), D(2, ok=0))), OR(AND(D(0, ok=0), D(1, ok=0)), D(2, ok=0)),
              OR(OR(D(0, ok=0), D(1, ok=0)), D(2, ok=0))):
        for d in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (2, 0)):
            out.append(case("interactive %+d%+d %s" % (d + (show(t),)), "interactive", tree=t, dch=d[0], drs=d[1]))
            out.append(case("nizk %+d%+d %s" % (d + (show(t),)), "nizk", tree=t, dch=d[0], drs=d[1]))
    for name, t in dict(big_trees(), **huge_trees(14)).items():
        if "|" in show(t):
            out.append(case("interactive large " + name, "interactive", tree=unknown(t), cost=20))
    for name, t in big_trees(6, 4).items():
        if "|" in show(t):
            out.append(case("nizk large " + name, "nizk", tree=unknown(t), cost=20))
    for t in curve_trees(False):
        if t["k"] == "or":
            out.append(case("interactive curve " + show(t), "interactive", tree=t))
            out.append(case("nizk curve " + show(t), "nizk", tree=t))
    return out
