"""C15: range statements mean exactly their documented range and say so to honest users."""
from .common import *

BOUNDS = {"quick": "digit decompositions of all values around [0, 2^n) for n <= 5; power-of-two ranges of 1-3 bits and [a, b) of 1-6 values with "
          "all values inside and in windows outside; lower limits anywhere in [-2^70, 2^70]; wide ranges (up to 2^66 values) at selected "
          "offsets; groups 713, 415 and G1; both flows; all bases, randomizers and coins",
          "thorough": "as quick with 7-bit decompositions and ranges of up to 12 values"}


def bits(ctx, n, lo, hi):
    """Least significant digit first, exactly n digits, refused exactly when impossible."""
    v = ctx.int("v", lo, hi)
    k, r = ctx.attempt(ctx.zk.decompose_into_n_bits, v, n)
    if k == "exc":
        ctx.check((v < 0) | (v >= ctx.const(1 << n)), "values that fit are decomposed")
        return
    ctx.check((v >= 0) & (v < ctx.const(1 << n)), "values that do not fit are refused")
    ctx.check(len(r) == n, "one digit per bit")
    tot = ctx.const(0)
    for i, b in enumerate(r):
        b = int(b)
        if b not in (0, 1):
            ctx.fail("digits are 0 or 1")
        tot = tot + ctx.const(b << i)
    ctx.check(tot == v, "the digits represent the value")


def values(ctx, env, g, x, r):
    p, h = env.point("g", g), env.point("h", g)
    return p, h, x * p + r * h


def mk(ctx, kind, com, g, h, n, a, b, x, r):
    zk = ctx.zk
    if kind == "P":
        return zk.PowerTwoRangeStmt(com, g, h, n, x, r)
    return zk.RangeStmt(com, g, h, a, b, x, r)


def verdict(ctx, st, v, flow):
    if flow:
        k, r = ctx.attempt(lambda: run_interactive(ctx, st.get_prover(), v.get_verifier())[0])
        return k == "ok" and bool(r)
    k, n = ctx.attempt(st.prove)
    return k == "ok" and ctx.accepts(v.verify, n)


def honest(ctx, kind, n, a, b, grp, flow, base=None, off=None, ints=0):
    """Values in range are proven and accepted without a warning; other ones are not, with a warning."""
    env = Env(ctx)
    zk = ctx.zk
    G = env.group(grp)
    q = G.order()
    A = ctx.int("a", -(1 << 70), 1 << 70) if base else ctx.const(a)
    B = A + ctx.const(b - a)
    if off is not None:
        x = A + ctx.const(off)
    elif base:
        x = A + ctx.int("t", -2, b - a + 2)
    else:
        x = ctx.int("x", a - (b - a) - 2, b + (b - a) + 2)
    r = ctx.scalar("r", q)
    g, h, com = values(ctx, env, grp, x, r)
    inside = (x >= A) & (x < B)
    lims = (a, b) if ints and not base else (A, B)
    w0 = len(ctx.warnings)
    k, st = ctx.attempt(mk, ctx, kind, com, g, h, n, *lims, zk.Secret(value=x), zk.Secret(value=r))
    if k == "exc":
        ctx.fail("a range statement can be made")
    v = mk(ctx, kind, com, g, h, n, *lims, zk.Secret(), zk.Secret())
    warned = len(ctx.warnings) > w0
    ok = verdict(ctx, st, v, flow)
    if ok:
        ctx.check(inside, "only values in range are accepted")
    else:
        ctx.check(~inside if ctx.sym and not isinstance(inside, bool) else not inside, "values in range are accepted")
    if warned:
        ctx.check(~inside if ctx.sym and not isinstance(inside, bool) else not inside, "no warning for values in range")
    else:
        ctx.check(inside, "a warning for values out of range")


def ints(ctx, a, b, x, kinds):
    """Plain integers work like big numbers for value, randomizer and limits."""
    env = Env(ctx)
    zk = ctx.zk
    G = env.group(DEF)
    r = 12345
    g, h = env.point("g", DEF), env.point("h", DEF)
    com = ctx.const(x) * g + ctx.const(r) * h
    f = lambda v, big: ctx.const(v) if big else v
    xa, ra, aa, ba = [f(v, k) for v, k in zip((x, r, a, b), kinds)]
    st = zk.RangeStmt(com, g, h, aa, ba, zk.Secret(value=xa), zk.Secret(value=ra))
    v = zk.RangeStmt(com, g, h, ctx.const(a), ctx.const(b), zk.Secret(), zk.Secret())
    ctx.check(verdict(ctx, st, v, 0) == (a <= x < b), "integers work like big numbers")


def verifier_default(ctx, n, have):
    """A power-of-two range statement without secrets verifies, cannot prove."""
    env = Env(ctx)
    zk = ctx.zk
    q = env.group(DEF).order()
    x, r = ctx.int("x", 0, (1 << n) - 1), ctx.scalar("r", q)
    g, h, com = values(ctx, env, DEF, x, r)
    st = zk.PowerTwoRangeStmt(com, g, h, n, zk.Secret(value=x), zk.Secret(value=r))
    v = zk.PowerTwoRangeStmt(com, g, h, n)
    if have == "--":
        ctx.check(verdict(ctx, st, v, 0), "the documented defaults make a verifier's statement")
    kw = {}
    if have[0] != "-":
        kw["x"] = zk.Secret(value=x) if have[0] == "v" else zk.Secret()
    if have[1] != "-":
        kw["randomizer"] = zk.Secret(value=r) if have[1] == "v" else zk.Secret()
    w = zk.PowerTwoRangeStmt(com, g, h, n, **kw)
    k, nz = ctx.attempt(w.prove)
    ctx.check(k == "exc" or nz is None, "no proof without value and randomizer")
    ctx.check(verdict(ctx, st, w, 0), "a statement with some secrets verifies")


def other(ctx, first, second, flow):
    """A proof for one range is not accepted for another one."""
    env = Env(ctx)
    zk = ctx.zk
    q = env.group(DEF).order()
    (a, b), (c, d) = first, second
    x, r = ctx.int("x", max(a, c), min(b, d) - 1), ctx.scalar("r", q)
    g, h, com = values(ctx, env, DEF, x, r)
    st = zk.RangeStmt(com, g, h, a, b, zk.Secret(value=x), zk.Secret(value=r))
    v = zk.RangeStmt(com, g, h, c, d, zk.Secret(), zk.Secret())
    ctx.check(not verdict(ctx, st, v, flow), "a proof for one range is not accepted for another one")


def only(ctx, a, b, off):
    """RangeOnlyStmt commits by itself and covers the same range."""
    zk = ctx.zk
    if off is None:
        x = ctx.int("x", a - 2, b + 1)
    else:
        x = ctx.const(a + off)
    inside = (x >= ctx.const(a)) & (x < ctx.const(b))
    k, st = ctx.attempt(zk.RangeOnlyStmt, a, b, zk.Secret(value=x))
    ok = False
    if k == "ok":
        k, n = ctx.attempt(st.prove)
        ok = k == "ok" and ctx.accepts(st.verify, n)
    if ok:
        ctx.check(inside, "only values in range are accepted")
        # composing with a representation of the same value
    else:
        ctx.check(~inside if ctx.sym and not isinstance(inside, bool) else not inside, "values in range are accepted")


def only_fresh(ctx, a, b):
    """Two statements on one value use independent commitments."""
    zk = ctx.zk
    x = ctx.int("x", a, b - 1)
    n0 = ctx.start_coins()
    p = []

    def parts(st):
        return [y for s in st.subproofs for y in parts(s)] if hasattr(st, "subproofs") else [st]
    for _ in range(2):
        st = zk.RangeOnlyStmt(a, b, zk.Secret(value=x))
        p += [s.lhs for s in parts(st) if hasattr(s, "lhs")]
    if not p:
        ctx.check(True, "commitments are not visible")
        return
    ctx.check_masked(p, [d for _, d in ctx.draws()[n0:]], p[0].group.order(), "commitments")


def cases(tier):
    out = []
    for n in range(1, 6 if tier == "quick" else 8):
        out.append(case("bits %d" % n, "bits", n=n, lo=-3, hi=(1 << n) + 5, cost=n))
        out.append(case("bits %d huge" % n, "bits", n=n, lo=1 << 24, hi=(1 << 24) + 3, cost=3))
    for flow in (0, 1):
        for grp in (713, 415, "G1"):
            for n in (1, 2, 3):
                if n < 3 or grp == 713:
                    out.append(case("pow2 %d %s %d" % (n, grp, flow), "honest", kind="P", n=n, a=0, b=1 << n, grp=grp, flow=flow, cost=6))
            for a, b in ((0, 1), (0, 2), (2, 5), (-1, 1)) + (((-7, -4), (0, 4), (0, 5), (3, 9)) if grp == 713 else ()) + \
                    (((0, 8), (-5, 7)) if tier != "quick" else ()):
                out.append(case("range [%d,%d) %s %d" % (a, b, grp, flow), "honest", kind="R", n=0, a=a, b=b, grp=grp, flow=flow, ints=flow, cost=20))
        for w in (1, 2, 3, 5):
            out.append(case("anywhere %d %d" % (w, flow), "honest", kind="R", n=0, a=0, b=w, grp=713, flow=flow, base=1, cost=20))
        for w in (1 << 12, 10 ** 4) + ((1 << 33, (1 << 65) + 1) if tier != "quick" else ()):
            for off in (0, 1, w // 2, w - 1, w, -1, w + 1):
                if w < 1 << 20 or off in (0, w - 1, w, -1):
                    out.append(case("wide %d at %d %d" % (w, off, flow), "honest", kind="R", n=0, a=0, b=w, grp=713, flow=flow, base=1, off=off, cost=30))
        for p, s in (((0, 5), (0, 6)), ((0, 6), (0, 5)), ((0, 5), (1, 6)), ((0, 4), (0, 5)), ((0, 1), (0, 2)), ((-1, 1), (0, 2)), ((0, 3), (-3, 3)), ((2, 5), (2, 6)),
                     ((0, 8), (1, 8))):
            out.append(case("other %r %r %d" % (p, s, flow), "other", first=p, second=s, flow=flow, cost=6))
    for kinds in itertools.product((0, 1), repeat=4):
        for a, b, x in ((2, 7, 5), (2, 7, 7), (-4, 3, -1), (0, 1, 0)):
            out.append(case("ints %s [%d,%d) %d" % ("".join(map(str, kinds)), a, b, x), "ints", a=a, b=b, x=x, kinds=kinds, cost=2))
    for n in (1, 2):
        for have in ("--", "v-", "-v", "vs", "sv", "ss"):
            out.append(case("defaults %d %s" % (n, have), "verifier_default", n=n, have=have, cost=5))
    for a, b in ((0, 1), (0, 2), (2, 5), (-3, 0), (-1, 1), (0, 5)):
        out.append(case("only [%d,%d)" % (a, b), "only", a=a, b=b, off=None, cost=10))
        out.append(case("only fresh [%d,%d)" % (a, b), "only_fresh", a=a, b=b))
    for w in (1 << 10, (1 << 12) - 7) + (((1 << 31) - 9,) if tier != "quick" else ()):
        for off in (0, w - 1, w, -1):
            out.append(case("only wide %d at %d" % (w, off), "only", a=-5, b=w - 5, off=off, cost=20))
    return out
