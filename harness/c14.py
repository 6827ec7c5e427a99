"""C14: accepted range proofs show knowledge of an opening inside the range."""
from .common import *

BOUNDS = {"quick": "power-of-two ranges of 1-4 bits, ranges [a, b) of 1-4 values with negative, zero and positive limits, alone and "
          "composed with representations sharing the value; all public points, precommitments (bit commitments, revealed "
          "randomizer; up to one surplus or missing entry), commitments, challenge pairs, sub-challenges and responses; honest "
          "provers holding values outside of the range (windows of 2*(b-a)+3 values next to both limits; seven far values), with every coin",
          "thorough": "as quick with up to 5 bits and ranges of up to 32 values"}


def sound(ctx, tree, nizk):
    (sound_nizk if nizk else sound_interactive)(ctx, tree)


def reshaped(ctx, tree, dc, dr, same):
    """Too many or too few bit commitments and bit proofs are never accepted."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)

    def pre(p):
        if isinstance(p, dict):
            cs = list(p["Cs"])
            return dict(p, Cs=grow(cs, dc))
        return [pre(x) for x in p] if isinstance(p, list) else p

    def grow(xs, n):
        xs = list(xs)
        if n < 0:
            return xs[:n]
        for _ in range(n):
            xs.append(xs[-1] if same else fresh(ctx, xs[-1], "x"))
        return xs

    def rs(t, r):
        if t["k"] == "R":
            return [r[0], rs(P(2), r[1]), rs(P(2), r[2])]
        if t["k"] == "P":
            return grow(r if isinstance(r, list) else [r], dr)
        return [rs(s, x) for s, x in zip(t["c"], r)]
    a.pre = pre(a.pre)
    bits = a.com if tree["k"] == "P" else a.com[1]
    if dr and isinstance(bits, list):
        a.com = grow(a.com, dr) if tree["k"] == "P" else [a.com[0], grow(a.com[1], dr), grow(a.com[2], dr)]
    r = rs(tree, a.responses())
    k, ok = ctx.attempt(a.run, ctx.int("c", 0, (1 << 128) - 1), r)
    ctx.check(k == "exc" or not ok, "a proof with a wrong number of bits is not accepted")
    st = Side(env, "v").build(tree)
    k, h = ctx.attempt(lambda: (st.get_verifier().process_precommitment(a.pre), st.prehash_statement().digest())[1])
    if k == "ok":
        n = ctx.zk.NIZK(ctx.int("C", 0, (1 << 256) - 1), r, a.pre, h)
        ctx.check(not ctx.accepts(Side(env, "v").build(tree).verify, n), "a proof with a wrong number of bits is not accepted")


def outside(ctx, kind, n, lo, hi, where, flow):
    """The library's prover does not get a value outside of the range accepted."""
    env = Env(ctx)
    zk = ctx.zk
    G = env.group(DEF)
    q = G.order()
    g, h = env.point("g", DEF), env.point("h", DEF)
    w = 2 * (hi - lo) + 3
    if where == "far":
        Q = int(q)
        x = ctx.const(ctx.choose("x", [Q + hi, Q + lo - 1, 1 << 100, -(1 << 100), hi - Q, lo - 1 - Q, 2 * Q + hi]))
    else:
        base = {"above": hi, "below": lo - w}[where]
        x = ctx.int("x", base, base + w - 1)
    r = ctx.scalar("r", q)
    com = x * g + r * h

    def mk(p):
        xs, rs = (zk.Secret(value=x), zk.Secret(value=r)) if p else (zk.Secret(), zk.Secret())
        if kind == "P":
            return zk.PowerTwoRangeStmt(com, g, h, n, xs, rs)
        return zk.RangeStmt(com, g, h, lo, hi, xs, rs)
    st, v = mk(1), mk(0)
    if flow:
        k, ok = ctx.attempt(lambda: run_interactive(ctx, st.get_prover(), v.get_verifier())[0])
    else:
        k, ok = ctx.attempt(lambda: ctx.accepts(v.verify, st.prove()))
    ctx.check(k == "exc" or not ok, "a value outside of the range is not accepted")


def cheat(ctx, kind, n, lo, hi, flow, order):
    """A prover that claims arbitrary digits for the shifted values only convinces for values in range."""
    env = Env(ctx)
    zk = ctx.zk
    G = env.group(DEF)
    q = G.order()
    g, h = env.point("g", DEF), env.point("h", DEF)
    bits = n or max((hi - lo - 1).bit_length(), 1)
    v = ctx.int("v", lo - (2 << bits), hi + (2 << bits))
    r = ctx.scalar("r", q)
    com = v * g + r * h
    us = [ctx.const(ctx.choose("u", range(1 << bits))) for _ in range(1 if kind == "P" else 2)]

    def mk(p):
        xs, rs = (zk.Secret(value=v), zk.Secret(value=r)) if p else (zk.Secret(), zk.Secret())
        if kind == "P":
            return zk.PowerTwoRangeStmt(com, g, h, n, xs, rs)
        return zk.RangeStmt(com, g, h, lo, hi, xs, rs)

    def parts(st):
        return [x for s in st.subproofs for x in parts(s)] if hasattr(st, "subproofs") else [st]

    def attack():
        st = mk(1)
        ps = [s for s in parts(st) if type(s) is zk.PowerTwoRangeStmt]
        if len(ps) != len(us):
            raise ValueError("unknown layout")
        for s, u in zip(ps, us if order else us[::-1]):
            s.x.value = u
        if flow:
            return run_interactive(ctx, st.get_prover(), mk(0).get_verifier())[0]
        return ctx.accepts(mk(0).verify, st.prove())
    k, ok = ctx.attempt(attack)
    if k == "ok" and ok:
        ctx.check((v >= ctx.const(lo)) & (v < ctx.const(hi)), "a value outside of the range is not accepted")
    else:
        ctx.check(True, "not accepted")


def cases(tier):
    d = lambda i, **o: D(i, ok=0, **o)
    p = lambda n: P(n, ok=0)
    r = lambda a, b, *s: dict(R(a, b, ok=0), s=list(s))
    ts = [p(1), p(2), p(3), AND(p(1), d(0)), OR(p(1), d(0)), AND(p(1), p(2)), OR(p(1), p(1)), AND(OR(p(1), d(0)), d(1))]
    for a, b in ((0, 1), (0, 2), (3, 4), (2, 4), (0, 3), (2, 5), (-1, 1), (-3, 0), (0, 4), (1, 5)):
        ts.append(r(a, b))
    ts += [AND(d(0), r(0, 2, 0)), AND(D(0, 1, ok=0), r(3, 4, 0)), OR(r(0, 2), d(0))]
    if tier != "quick":
        ts += [r(0, 5), r(-2, 6), AND(r(2, 5, 0), d(0)), AND(r(0, 1, 0), r(0, 1, 0)), p(4), p(5), r(0, 9), r(5, 13), r(-7, 9), r(10, 42), OR(r(2, 5), r(7, 9)), AND(OR(p(2), d(0)), r(0, 3, 1), d(1))]
    out = []
    for t in ts:
        cost = sum(len(range(l["n"])) if l["k"] == "P" else 2 * max((l["b"] - l["a"] - 1).bit_length(), 1) if l["k"] == "R" else 1 for l in leaves(t))
        out.append(case("interactive " + show(t), "sound", tree=t, nizk=False, cost=2 ** cost))
        if tier == "quick" and t["k"] == "R" and (t["a"], t["b"]) in ((0, 3), (-3, 0), (1, 5)):
            continue
        out.append(case("nizk " + show(t), "sound", tree=t, nizk=True, cost=2 ** cost))
    for t in (p(1), p(2), p(3), r(2, 5), r(0, 2), r(0, 1)):
        for dc, dr in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)):
            for same in (0, 1) if dc > 0 or dr > 0 else (0,):
                out.append(case("reshaped %+d%+d%s %s" % (dc, dr, "s" * same, show(t)), "reshaped", tree=t, dc=dc, dr=dr, same=same, cost=3))
    for where in ("above", "below", "far"):
        for flow in (0, 1):
            for n in (1, 2, 3):
                out.append(case("outside P%d %s %d" % (n, where, flow), "outside", kind="P", n=n, lo=0, hi=1 << n, where=where, flow=flow, cost=3))
            for a, b in ((0, 1), (0, 2), (2, 5), (-1, 1), (0, 4), (3, 8)):
                out.append(case("outside [%d,%d) %s %d" % (a, b, where, flow), "outside", kind="R", n=0, lo=a, hi=b, where=where, flow=flow, cost=5))
    for flow in (0, 1):
        for n in (1, 2, 3):
            out.append(case("cheat P%d %d" % (n, flow), "cheat", kind="P", n=n, lo=0, hi=1 << n, flow=flow, order=1, cost=20))
        for a, b in ((0, 1), (0, 2), (2, 5), (-1, 1), (0, 3), (-6, -3)) + (((3, 8), (0, 5), (10, 16)) if tier != "quick" else ()):
            out.append(case("cheat [%d,%d) %d" % (a, b, flow), "cheat", kind="R", n=0, lo=a, hi=b, flow=flow, order=1, cost=20))
    for t in (p(4),):
        out.append(case("interactive large " + show(t), "sound", tree=t, nizk=False, cost=400))
    for t in curve_trees(False):
        if t["k"] in "PR":
            for z in (False, True) if t["k"] == "P" else (False,):
                out.append(case("nizk%d curve %s" % (z, show(t)), "sound", tree=t, nizk=z, cost=30))
    return out
