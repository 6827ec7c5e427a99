"""C20: the pairing wrappers are additive groups of one order with a bilinear map."""
from .common import *

BOUNDS = {"quick": "all points of G1, G2 and GT and all scalars up to 300 bits of any sign, sums and weighted sums of up to 4 and 12 terms, pairings of sums "
          "of up to 3 terms; two group pairs used together; statements over each group and over several of them with shared secrets",
          "thorough": "as quick with sums of 8 terms and pairings of sums of 5 terms"}
ASSUMES = ["bplib is modelled by its contract (discrete logarithms; compared with the real library by selfcheck.py)"]

BIG = 1 << 300


def setup(ctx, own=False):
    bp = ctx.zk.BilinearGroupPair(ctx.m("bplib.bp").BpGroup()) if own else ctx.zk.BilinearGroupPair()
    for g in bp.groups():
        g.generator()
    return bp


def sc(ctx):
    return ctx.int("k", -BIG, BIG)


def laws(ctx, g):
    bp = setup(ctx)
    G = getattr(bp, g)
    q = G.order()
    a, b, c = [ctx.bp_point(n, G, inf=True) for n in "abc"]
    inf = G.infinite()
    k, l = sc(ctx), sc(ctx)
    ctx.check(a + b == b + a, "sums commute")
    ctx.check((a + b) + c == a + (b + c), "sums associate")
    ctx.check(ctx.all([a + inf == a, inf + a == a, inf + inf == inf]), "the neutral element is neutral")
    ctx.check(ctx.all([a * k == k * a, k * a + l * a == (k + l) * a, k * (l * a) == (k * l) * a, k * a + k * b == k * (a + b)]), "multiples")
    ctx.check(ctx.all([1 * a == a, a * ctx.const(1) == a, a + (-1) * a == inf, 2 * a == a + a, ctx.const(-1) * a + a == inf]), "small multiples")
    ctx.check(ctx.all([0 * a == inf, a * 0 == inf, ctx.const(0) * a == inf, q * a == inf, (q + 1) * a == a, k * inf == inf]), "the order")
    ctx.check((k % q) * a == k * a, "scalars count modulo the order")
    same = mod0(k - l, q)
    gen = G.generator()
    if ctx.flag("same"):
        ctx.assume(same)
        ctx.check(k * gen == l * gen, "equal scalars give equal points")
    else:
        ctx.assume(~same if ctx.sym and not isinstance(same, bool) else not same)
        e = k * gen == l * gen
        ctx.check(~e if ctx.sym and not isinstance(e, bool) else not e, "the generator has full order")
    if hasattr(a, "__sub__"):
        ctx.check(ctx.all([a - b == a + (-1) * b, a - a == inf, (a - b) + b == a]), "differences")
    ctx.check((a + b).group == G and (k * a).group == G and inf.group == G and gen.group == G, "results stay in the group")
    # nothing modified its operands
    x = a + b
    y = k * a
    _ = a + x, l * y
    ctx.check(ctx.all([x == a + b, y == k * a]), "operations do not modify their operands")


def sums(ctx, g, n, how):
    bp = setup(ctx)
    G = getattr(bp, g)
    pts = [ctx.bp_point("p", G, inf=True) for _ in range(n)]
    ks = [sc(ctx) for _ in range(n)]
    tot = wt = G.infinite()
    for k, p in zip(ks, pts):
        tot, wt = tot + p, wt + k * p
    if how == "ok":
        ctx.check(G.sum(pts) == tot, "sum() adds all points")
        ctx.check(G.wsum(ks, pts) == wt, "wsum() adds all weighted points")
        ctx.check(G.sum(tuple(pts)) == tot, "sum() of a tuple")
        ctx.check(G.wsum([1] * n, pts) == tot, "weights may be integers")
        ctx.check(ctx.all([x == y for x, y in zip(pts, list(pts))]) and len(pts) == n, "the arguments do not change")
        ctx.check(G.infinite() + tot == tot, "the neutral element stays neutral")
        if n:
            ctx.check(G.wsum(list(reversed(ks)), list(reversed(pts))) == wt, "the order of the terms does not matter")
            ctx.check(G.wsum([0] * n, pts) == G.infinite(), "zero weights")
    else:
        if how == "weight":
            ks = ks + [sc(ctx)]
        else:
            pts = pts + [ctx.bp_point("s", G, inf=True)]
        ctx.check(ctx.attempt(G.wsum, ks, pts)[0] == "exc", "surplus weights or points are refused")


def bilinear(ctx, n, m):
    bp = setup(ctx)
    P = [ctx.bp_point("P", bp.G1, inf=True) for _ in range(n)]
    Q = [ctx.bp_point("Q", bp.G2, inf=True) for _ in range(m)]
    ks, ls = [sc(ctx) for _ in P], [sc(ctx) for _ in Q]
    left, right = bp.G1.wsum(ks, P), bp.G2.wsum(ls, Q)
    want = bp.GT.infinite()
    for k, p in zip(ks, P):
        for l, r in zip(ls, Q):
            want = want + (k * l) * p.pair(r)
    ctx.check(left.pair(right) == want, "the pairing is bilinear")
    ctx.check(left.pair(right).group == bp.GT, "pairings are in GT")
    ctx.check(bp.G1.infinite().pair(right) == bp.GT.infinite(), "neutral left")
    ctx.check(left.pair(bp.G2.infinite()) == bp.GT.infinite(), "neutral right")
    e = bp.G1.generator().pair(bp.G2.generator())
    ctx.check(e == bp.GT.generator(), "the generators pair to the generator")
    ctx.check(ne(ctx, e), "the pairing is not degenerate")


def degenerate(ctx):
    """e(P, Q) = 0 only when P or Q is neutral; equal pairings with one generator mean equal points."""
    bp = setup(ctx)
    P, Q = ctx.bp_point("P", bp.G1), ctx.bp_point("Q", bp.G2)
    ctx.check(ne(ctx, P.pair(Q)), "the pairing is not degenerate")
    R_ = ctx.bp_point("R", bp.G1, inf=True)
    c = R_ == P
    ctx.assume(~c if ctx.sym and not isinstance(c, bool) else not c)
    c = R_.pair(Q) == P.pair(Q)
    ctx.check(~c if ctx.sym and not isinstance(c, bool) else not c, "different points pair differently")


def pairs(ctx, own):
    """Groups: orders, identity, two instances used together."""
    bp, bq = setup(ctx), setup(ctx, own)
    gs, hs = bp.groups(), bq.groups()
    ctx.check(len(gs) == 3 and gs[0] is bp.G1 and gs[1] is bp.G2 and gs[2] is bp.GT, "groups() lists G1, G2, GT")
    for i, x in enumerate(gs):
        ctx.check(x.order() == bp.G1.order(), "one order")
        for j, y in enumerate(hs):
            ctx.check((x == y) == (i == j), "groups are equal exactly when they are of one kind")
            ctx.check((x != y) == (i != j), "groups differ exactly when they are of different kinds")
    for x, y in zip(gs, hs):
        ctx.check(x.generator() == y.generator(), "one generator")
        ctx.check(x.infinite() == y.infinite(), "one neutral element")
        a, b = ctx.bp_point("a", x, inf=True), ctx.bp_point("b", y, inf=True)
        ctx.check(a + b == b + a, "points of two instances can be added")
        ctx.check(x.wsum([1, 1], [a, b]) == a + b, "also in weighted sums")
    ctx.check(gs[0].generator().pair(hs[1].generator()) == gs[2].generator(), "points of two instances can be paired")
    if own:
        under = ctx.m("bplib.bp").BpGroup()
        b = ctx.zk.BilinearGroupPair(under)
        ctx.check(b.bpgp is under, "the given group is used")


def hashed(ctx):
    bp = setup(ctx)
    a, b, c = [bp.G1.hash_to_point(s) for s in (b"one", b"two", b"one")]
    ctx.check(a == c, "hashing to a point is deterministic")
    ctx.check(a.group == bp.G1 and bp.G1.order() * a == bp.G1.infinite(), "hashed points are in the group")
    x = a == b
    ctx.assume(~x if ctx.sym and not isinstance(x, bool) else not x)
    k = sc(ctx)
    ctx.check(k * a + b == b + k * c, "hashed points are ordinary points")


def exported(ctx, g):
    """Printed and exported forms are the same exactly for equal points."""
    bp = setup(ctx)
    G = getattr(bp, g)
    a, b = ctx.bp_point("a", G, inf=True), ctx.bp_point("b", G, inf=True)
    same = a == b
    eq = ctx.flag("same")
    ctx.assume(same if eq else ~same if ctx.sym and not isinstance(same, bool) else not same)
    ctx.check((ctx.same_text(repr(a), repr(b))) if eq else _not(ctx, ctx.same_text(repr(a), repr(b))), "printed forms identify points")
    ctx.check((ctx.same_bytes(a.export(), b.export())) if eq else _not(ctx, ctx.same_bytes(a.export(), b.export())), "exported forms identify points")


def _not(ctx, c):
    return ~c if ctx.sym and not isinstance(c, bool) else not c


def statement(ctx, tree):
    """Statements over pairing groups are proven like others."""
    env = Env(ctx)
    p = Side(env, "p")
    m = ctx.text("m")
    n = p.build(tree).prove(message=m)
    ctx.check(Side(env, "v").build(tree).verify(n, message=m), "an honest proof is accepted")
    tr = Side(env, "s").build(tree).simulate()
    ctx.check(Side(env, "v").build(tree).verify_simulation_consistency(tr), "simulations are consistent")


def cases(tier):
    out = []
    q = tier == "quick"
    for g in ("G1", "G2", "GT"):
        out.append(case("laws " + g, "laws", g=g, cost=5))
        out.append(case("exported " + g, "exported", g=g))
        for n in range((4 if q else 8) + 1):
            for how in ("ok", "weight", "point"):
                out.append(case("sums %s %d %s" % (g, n, how), "sums", g=g, n=n, how=how, cost=n))
    top = 3 if q else 5
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            out.append(case("bilinear %d %d" % (n, m), "bilinear", n=n, m=m, cost=n * m))
    out.append(case("degenerate", "degenerate"))
    out.append(case("hashed", "hashed"))
    for own in (False, True):
        out.append(case("pairs own%d" % own, "pairs", own=own))
    gs = ("G1", "G2", "GT")
    for g in gs:
        for t in (D(0, g=g), D(0, 1, g=g), D(0, 0, g=g), D(0, 1, 2, g=g), OR(D(0, g=g), D(1, g=g, ok=0)), X(0, g=g, pre="point", inner="and"), N(0, g=g, bind=1),
                  N(0, g=g), AND(N(0, g=g, bind=1), D(0, g=g)), P(1, g=g), P(2, g=g), R(2, 5, g=g), OR(D(0, g=g), R(-1, 1, g=g))):
            out.append(case("statement " + show(t), "statement", tree=t, cost=4))
        for h in gs:
            for t in (AND(D(0, g=g), D(0, g=h)), OR(D(0, g=g), D(1, g=h, ok=0)), OR(D(0, g=g, ok=0), D(1, g=h))):
                out.append(case("statement " + show(t), "statement", tree=t, cost=5))
    t = AND(D(0, 1, g="G1"), D(1, g="G2"), D(0, 1, g="GT"))
    out.append(case("statement " + show(t), "statement", tree=t, cost=6))
    for g in ("G1", "G2", "GT"):
        for how in ("ok", "weight", "point"):
            out.append(case("sums large %s %s" % (g, how), "sums", g=g, n=12, how=how, cost=12))
        out.append(case("statement large " + g, "statement", tree=AND(D(*range(8), g=g), D(7, 0, g=g)), cost=8))
    return out
