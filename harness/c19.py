"""C19: expressions mean the sum of their terms, whatever they are built from and used for."""
import copy

from .common import *

BOUNDS = {"quick": "all programs of up to 3 additions over up to 3 terms (any operands computed so far, also twice the same), with statements made "
          "from every intermediate result; weighted sums of up to 5, 12 and 20 terms; programs of 4-6 additions over 7 terms; every group; all values (reduced or not, also zero and "
          "negative), points and coins",
          "thorough": "as quick with programs of 4 additions over 4 terms and sums of 8 terms"}
ASSUMES = []


def snapshot(e):
    return (tuple(e.secrets), tuple(e.bases))


def same_terms(ctx, e, snap):
    s, b = snap
    if len(e.secrets) != len(s) or len(e.bases) != len(b) or any(x is not y for x, y in zip(e.secrets, s)):
        return False
    return ctx.all([x == y for x, y in zip(e.bases, b)])


class Sum:
    """What an expression should mean: its terms, and its value for given secrets."""

    def __init__(self, terms):
        self.terms = terms

    def value(self, ctx, vals):
        out = None
        for i, b in self.terms:
            t = vals[i] * b
            out = t if out is None else out + t
        return out


def known_bn(ctx, wide, q):
    return ctx.int("x", -W, W) if wide else ctx.scalar("x", q)


def program(ctx, atoms, ops, g, wide):
    """atoms: secret number per term; ops: pairs of earlier results to add."""
    zk = ctx.zk
    env = Env(ctx)
    G = env.group(g)
    if isinstance(g, str):
        G.generator()
    q = G.order()
    vals = {i: known_bn(ctx, wide, q) for i in sorted(set(atoms))}
    secs = {i: zk.Secret(value=vals[i]) for i in vals}
    bases = [env.point("g", g) for _ in atoms]
    es = [secs[i] * b for i, b in zip(atoms, bases)]
    want = [Sum([(i, b)]) for i, b in zip(atoms, bases)]
    snaps = [snapshot(e) for e in es]
    stmts = [(zk.DLRep(want[0].value(ctx, vals), es[0]), want[0])]
    for l, r in ops:
        e = es[l] + es[r]
        es.append(e)
        want.append(Sum(want[l].terms + want[r].terms))
        snaps.append(snapshot(e))
        ctx.check(len(e.secrets) == len(want[-1].terms) == len(e.bases), "a sum has the terms of both operands")
        stmts.append((zk.DLRep(want[-1].value(ctx, vals), e), want[-1]))
        for k, (x, s) in enumerate(zip(es, snaps)):
            ctx.check(same_terms(ctx, x, s), "no operand changes")
    for e, w in zip(es, want):
        ctx.check(ctx.all([a is secs[i] for a, (i, _) in zip(e.secrets, w.terms)]), "the terms are those of the operands")
        ctx.check(e.eval() == w.value(ctx, vals), "an expression evaluates to the sum of its terms")
    # the statements made along the way say what the expressions said
    for st, w in stmts[-3:]:
        n = st.prove()
        vs = {i: zk.Secret() for i in vals}
        ve = zk.DLRep(w.value(ctx, vals), zk.wsum_secrets([vs[i] for i, _ in w.terms], [b for _, b in w.terms]))
        ctx.check(ve.verify(n), "a statement is about the expression as it was when the statement was made")


def wsum(ctx, n, g, share):
    zk = ctx.zk
    env = Env(ctx)
    G = env.group(g)
    if isinstance(g, str):
        G.generator()
    q = G.order()
    ids = [0 if share and k in (1, n - 1) else k for k in range(n)]
    vals = {i: known_bn(ctx, True, q) for i in sorted(set(ids))}
    secs = {i: zk.Secret(value=vals[i]) for i in vals}
    bases = [env.point("g", g, inf=True) for _ in ids]
    ss, bs = [secs[i] for i in ids], list(bases)
    e = zk.wsum_secrets(ss, bs)
    ctx.check(len(ss) == len(bs) == n and all(x is secs[i] for x, i in zip(ss, ids)), "the arguments do not change")
    want = Sum(list(zip(ids, bases)))
    if len(ss) == n and len(bs) == n:
        ss[0] = zk.Secret(value=ctx.const(5))
        bs[0] = bs[0] + G.generator()
        ss.append(ss[0])
    ctx.check(same_terms(ctx, e, ([secs[i] for i in ids], bases)), "a weighted sum lists its terms in order")
    ctx.check(e.eval() == want.value(ctx, vals), "a weighted sum evaluates to the sum of its terms")
    x = None
    for i, b in zip(ids, bases):
        t = secs[i] * b
        x = t if x is None else x + t
    ctx.check(same_terms(ctx, x, snapshot(e)), "a weighted sum is the sum of its terms")
    st, st2 = zk.DLRep(e.eval(), e), zk.DLRep(x.eval(), x)
    ctx.check(st2.verify(st.prove()), "both forms make the same statement")
    # later values count
    new = {i: known_bn(ctx, True, q) for i in vals}
    zk.update_secret_values({secs[i]: new[i] for i in vals})
    for i in vals:
        ctx.check(secs[i].value == new[i], "values are updated")
    ctx.check(e.eval() == want.value(ctx, new), "an evaluation uses the present values")


def missing(ctx, n, which):
    """An expression with a missing value is not evaluated; zero is a value."""
    zk = ctx.zk
    env = Env(ctx)
    q = env.group(DEF).order()
    bases = [env.point("g", DEF) for _ in range(n)]
    for zero_ in (False, True):
        vals = [ctx.const(0) if zero_ else known_bn(ctx, False, q) for _ in range(n)]
        e = zk.wsum_secrets([zk.Secret(value=None if i == which else v) for i, v in enumerate(vals)], bases)
        k, _ = ctx.attempt(e.eval)
        ctx.check((k == "ok") == (which is None), "an expression is evaluated exactly when all values are known")
        st = zk.DLRep(env.point("Y", DEF), e)
        p = st.get_prover()
        ctx.check((p is not None) == (which is None), "a prover exists exactly when all values are known")
        if which is None:
            st = zk.DLRep(Sum(list(enumerate(bases))).value(ctx, vals), e)
            ctx.check(zk.DLRep(st.lhs, zk.wsum_secrets([zk.Secret() for _ in bases], bases)).verify(st.prove()), "it proves")


def identity(ctx, n):
    """Separately made secrets differ whatever their values; a secret stays itself when its value changes."""
    zk = ctx.zk
    q = ctx.group().order()
    ss = [zk.Secret(value=known_bn(ctx, False, q)) for _ in range(n)] + [zk.Secret(), zk.Secret()]
    for i, a in enumerate(ss):
        for j, b in enumerate(ss):
            if i != j and (a.value is None) == (b.value is None):
                ctx.check(not (a == b), "two secrets are different")
        ctx.check(a == a, "a secret is itself")
        ctx.check(a.name not in [b.name for b in ss[:i]], "names differ")
    d = {a: i for i, a in enumerate(ss)}
    for i, a in enumerate(ss):
        h = hash(a)
        a.value = known_bn(ctx, False, q)
        ctx.check(hash(a) == h and d.get(a) == i, "a secret is found under its new value")
    x = zk.Secret(value=ctx.const(3), name="x")
    y = zk.Secret(value=ctx.const(3), name="x")
    ctx.check(x == y and hash(x) == hash(y) and x.name == "x", "a given name is used")


def names(ctx, n):
    """Generated names keep enough of the digest they are made from to be different in any number of
    secrets: at least 64 bits of it, and different secrets have different digests."""
    ss = [ctx.zk.Secret() for _ in range(n if ctx.sym else 200000)]
    ctx.check(len({s.name for s in ss}) == len(ss), "names differ")
    ctx.check(len({hash(s) for s in ss}) == len(ss), "hashes differ")
    bits = ctx.digest_bits(ss[0].name)
    ctx.check(bits is None or bits >= 64, "names differ")


def refused(ctx, what, g):
    """Things that are no linear combinations of points are refused when written down."""
    zk = ctx.zk
    env = Env(ctx)
    G = env.group(g)
    gen = G.generator()
    q = G.order()
    x, y = zk.Secret(value=known_bn(ctx, False, q)), zk.Secret()
    p = env.point("P", g)
    fns = {"plus point": lambda: x * gen + p, "plus number": lambda: x * gen + ctx.const(1), "plus int": lambda: x * gen + 1,
           "plus secret": lambda: x * gen + y, "plus none": lambda: x * gen + None,
           "no secret": lambda: zk.Expression(ctx.const(3), gen), "point secret": lambda: zk.Expression(p, gen),
           "more secrets": lambda: zk.wsum_secrets([x, y], [gen]), "more bases": lambda: zk.wsum_secrets([x], [gen, p]),
           "no bases": lambda: zk.wsum_secrets([x], []), "nothing": lambda: zk.wsum_secrets([], []),
           "statement of point": lambda: zk.DLRep(p, p), "statement of secret": lambda: zk.DLRep(p, x),
           "statement of number": lambda: zk.DLRep(p, ctx.const(4))}
    k, r = ctx.attempt(fns[what])
    ctx.check(k == "exc", "no statement without a proper expression")


def composed(ctx, kind):
    """Composing statements leaves them (and the expressions) as they were."""
    zk = ctx.zk
    env = Env(ctx)
    q = env.group(DEF).order()
    v = [known_bn(ctx, False, q) for _ in range(3)]
    s = [zk.Secret(value=x) for x in v]
    b = [env.point("g", DEF) for _ in range(3)]
    e1 = s[0] * b[0]
    e2 = e1 + s[1] * b[1]
    e3 = e2 + e1 if kind == "and" else e2 + s[2] * b[2]
    es = [e1, e2, e3]
    snaps = [snapshot(e) for e in es]
    lhs = [e.eval() for e in es]
    sts = [zk.DLRep(y, e) for y, e in zip(lhs, es)]
    early = [st.prove() for st in sts]
    tree = {"and": lambda: sts[0] & sts[1] & sts[2], "or": lambda: sts[0] | sts[1] | sts[2],
            "mixed": lambda: (sts[0] & sts[1]) | sts[2]}[kind]()
    vs = [zk.Secret() for _ in s]
    ve = [zk.DLRep(y, zk.wsum_secrets([vs[[k for k, t in enumerate(s) if t is a][0]] for a in sn[0]], list(sn[1]))) for y, sn in zip(lhs, snaps)]
    vt = {"and": lambda: ve[0] & ve[1] & ve[2], "or": lambda: ve[0] | ve[1] | ve[2], "mixed": lambda: (ve[0] & ve[1]) | ve[2]}[kind]()
    ctx.check(vt.verify(tree.prove()), "the composition is proven")
    for e, sn in zip(es, snaps):
        ctx.check(same_terms(ctx, e, sn), "no expression changes")
    for a, n in zip(ve, early):
        ctx.check(a.verify(n), "earlier proofs of the parts stay valid")
    for a, st in zip(ve, sts):
        k, n = ctx.attempt(st.prove)
        if not getattr(st, "simulated", False) or k == "ok":
            ctx.check(k == "ok" and a.verify(n), "the parts can be proven later")


def programs(natoms, nops):
    """All programs up to the order of commuting operands, without unused additions."""
    out = []
    for ops in itertools.product(*[list(itertools.product(range(natoms + k), repeat=2)) for k in range(nops)]):
        used = {x for o in ops for x in o}
        if all(natoms + k in used for k in range(nops - 1)) and ops not in out:
            out.append(ops)
    return out


def cases(tier):
    out = []
    q = tier == "quick"
    for g in (DEF, "G1", "G2", "GT"):
        for nat, nop in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)) + (((2, 3), (3, 3)) if not q else ()) if g == DEF else ((2, 2),):
            for ops in programs(nat, nop):
                for atoms in ([list(range(nat))] + ([[0] * nat] if nat > 1 else [])):
                    out.append(case("program %s %s %s" % (g, atoms, ops), "program", atoms=atoms, ops=ops, g=g, wide=g == DEF, cost=nop))
        for n in range(1, (5 if q else 8) + 1 if g == DEF else 3):
            for share in (False, True):
                out.append(case("wsum %s %d share%d" % (g, n, share), "wsum", n=n, g=g, share=share, cost=n))
        for what in ("plus point", "plus number", "plus int", "plus secret", "plus none", "no secret", "point secret", "more secrets", "more bases",
                     "no bases", "nothing", "statement of point", "statement of secret", "statement of number"):
            out.append(case("refused %s %s" % (g, what), "refused", what=what, g=g))
    if q:
        for ops in programs(2, 3):
            out.append(case("program 713 [0, 1] %s" % (ops,), "program", atoms=[0, 1], ops=ops, g=DEF, wide=False, cost=3))
    for n in (1, 2, 3, 4):
        for which in [None] + list(range(n)):
            out.append(case("missing %d %s" % (n, which), "missing", n=n, which=which, cost=n))
        out.append(case("identity %d" % n, "identity", n=n))
    out.append(case("names", "names", n=100))
    for kind in ("and", "or", "mixed"):
        out.append(case("composed " + kind, "composed", kind=kind, cost=5))
    for n in (12, 20):
        out.append(case("wsum large %d" % n, "wsum", n=n, g=DEF, share=False, cost=n))
    # a running sum, a sum doubled again and again, and a sum of two sums
    chain = [(0, 1)] + [(6 + k, k + 1) for k in range(1, 6)]
    out.append(case("program large chain", "program", atoms=[0, 1, 2, 3, 4, 5, 6], ops=chain, g=DEF, wide=False, cost=20))
    out.append(case("program large right", "program", atoms=[0, 1, 2, 3, 4, 5, 6], ops=[(6, 5)] + [(5 - k, 6 + k) for k in range(1, 6)], g=DEF, wide=False, cost=20))
    out.append(case("program large doubled", "program", atoms=[0, 1], ops=[(0, 1), (2, 2), (3, 3), (4, 0)], g=DEF, wide=False, cost=20))
    return out
