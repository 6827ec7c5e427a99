"""C03: special soundness of representations and conjunctions, with consistent shared secrets."""
from .common import *

BOUNDS = ("conjunctions (nested up to 3 leaves; selected ones of 10 parts, 10 terms, 6 levels) of representations with 1-3 terms, every way of sharing secrets between "
          "and inside leaves; all public values, commitments, challenge pairs and responses (numbers up to 2^530 in "
          "absolute value); interactive verifier and non-interactive verifier (two answers of the oracle to one query)")


def interactive(ctx, tree):
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    c1, c2 = challenges(ctx)
    r1, r2 = a.responses("r"), a.responses("s")
    if not a.run(c1, r1) or not a.run(c2, r2):
        raise Skip()
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, None),
              "two accepted answers to one commitment give a witness")


def nizk(ctx, tree):
    """The forking argument: the oracle is re-programmed on the query of an accepted proof."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    zk = ctx.zk
    m = ctx.text("m")
    out = []
    for k in (1, 2):
        st = Side(env, "v").build(tree)
        c = ctx.int("c%d" % k, 0, (1 << 256) - 1)
        r = a.responses("r")
        v = st.get_verifier()
        v.process_precommitment(a.pre)
        ctx.fork_oracle(k)
        h = st.prehash_statement().digest()
        n = zk.NIZK(c, r, a.pre, h)
        if not ctx.accepts(Side(env, "v").build(tree).verify, n, m):
            raise Skip()
        out.append((c, r, ctx.last_query()))
    (c1, r1, q1), (c2, r2, q2) = out
    ctx.assume(ctx.same_query(q1, q2))
    ctx.assume(c1 != c2)
    q = env.leaf("t.0" if "c" in tree else "t", leaves(tree)[0])["q"]
    ctx.assume((c1 - c2) % q != 0)
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, None),
              "two accepted proofs with the same oracle query give a witness")


def ands(nmax):
    for n in range(2, nmax + 1):
        for sh in shapes(n):
            if "or" in repr(sh):
                continue
            for pat in patterns(sh, n):
                yield fill(sh, [D(i, ok=0) for i in pat])


def cases(tier):
    nmax = 3 if tier == "quick" else 4
    ts = [D(0, ok=0), D(0, 1, ok=0), D(0, 0, ok=0), D(0, 1, 0, ok=0), D(0, 1, same=1, ok=0), D(0, 1, 2, ok=0)]
    ts += list(ands(nmax))
    ts += [AND(D(0, 1, ok=0), D(1, 0, ok=0)), AND(D(0, 1, ok=0), D(1, 2, ok=0), D(2, 0, ok=0)),
           AND(D(0, 0, ok=0), D(0, ok=0)), AND(D(0, 1, ok=0), AND(D(2, ok=0), D(1, ok=0)))]
    for g in ("G1", "G2", "GT", 415):
        ts += [D(0, ok=0, g=g), AND(D(0, ok=0, g=g), D(0, 1, ok=0, g=g))]
    ts += [AND(D(0, ok=0, g="G1"), D(0, ok=0, g="G2")), AND(D(0, ok=0, g="G1"), D(1, 0, ok=0, g="GT"))]
    out = []
    for t in ts:
        out.append(case("interactive " + show(t), "interactive", tree=t))
        out.append(case("nizk " + show(t), "nizk", tree=t))
    for name, t in dict(big_trees(), **huge_trees(14)).items():
        if "|" not in show(t):
            out.append(case("interactive large " + name, "interactive", tree=unknown(t), cost=10))
            out.append(case("nizk large " + name, "nizk", tree=unknown(t), cost=10))
    for t in curve_trees(False):
        if t["k"] in ("D", "and"):
            out.append(case("interactive curve " + show(t), "interactive", tree=t))
            out.append(case("nizk curve " + show(t), "nizk", tree=t))
    return out
