"""C24: equivalent ways of building and using a statement are equivalent."""
import json

from .common import *

BOUNDS = {"quick": "compositions of 3-4 (selected: 7) parts (representations, inequality, user-written and other composed statements) in every grouping by operators, "
          "with every assignment of {known, unknown, marked} to parts and of marks to operands; expressions of up to 3 terms; every "
          "built-in primitive; all values, points, coins and branch choices",
          "thorough": "as quick with up to 5 parts and range and signature statements as parts"}


def groupings(n):
    """All ways to combine n parts, in order, by a binary operator."""
    if n == 1:
        return [0]
    return [(a, b) for k in range(1, n) for a in groupings(k) for b in groupings(n - k)]


def combine(kind, g, parts, marks=(), no=None):
    """Apply the operator as grouped; marks: numbers of the operator nodes (in order) marked at once."""
    no = [0] if no is None else no
    it = iter(parts)

    def go(g):
        if g == 0:
            return next(it)
        a, b = go(g[0]), go(g[1])
        st = (a & b) if kind == "and" else (a | b)
        if no[0] in marks:
            st.set_simulated()
        no[0] += 1
        return st
    return go(g)


def tup(g):
    return tuple(tup(x) for x in g) if isinstance(g, (list, tuple)) else g


def reached(g, marks):
    """Parts below a marked operator node, and whether the root is marked."""
    out, no = set(), [0]

    def go(g, lo):
        if g == 0:
            return [lo]
        a = go(g[0], lo)
        b = go(g[1], a[-1] + 1)
        if no[0] in marks:
            out.update(a + b)
        no[0] += 1
        return a + b
    go(g, 0)
    return out, no[0] - 1 in marks


def operators(ctx, kind, parts, g, marks, flow):
    """A statement grouped by operators against one made by the constructor from the list of parts."""
    ctx.distinct_queries()
    g = tup(g)
    env = Env(ctx)
    zk = ctx.zk
    cls = zk.AndProofStmt if kind == "and" else zk.OrProofStmt
    inside, root = reached(g, marks)
    flat_tree = {"k": kind, "c": [dict(p, sim=1) if n in inside else p for n, p in enumerate(parts)], "sim": int(root)}
    tree = {"k": kind, "c": parts}

    def build(role, how):
        s = Side(env, role)
        s.known = s.known_ids(tree)
        ps = [s.build(p, "t.%d" % n) for n, p in enumerate(parts)]
        return combine(kind, g, ps, marks if role == "p" else ()) if how == "op" else cls(*ps)

    st = build("p", "op")
    want = provable(flat_tree)
    if flow:
        pr = st.get_prover()
        ctx.check((pr is not None) == want, "marks on operands count, everything else can be proven")
        if pr is None:
            raise Skip()
        ctx.check(run_interactive(ctx, pr, build("v", "ctor").get_verifier())[0], "sessions between the two forms are accepted")
        back = build("p", "ctor") if not marks else None
        if back is not None and provable(tree):
            ctx.check(run_interactive(ctx, back.get_prover(), build("v", "op").get_verifier())[0], "sessions between the two forms are accepted")
        raise Skip()
    k, n = ctx.attempt(st.prove)
    ctx.check((k == "ok") == want, "marks on operands count, everything else can be proven")
    if k != "ok":
        raise Skip()
    other = build("v", "ctor")
    other.get_verifier().process_precommitment(n.precommitment)
    ctx.check(other.prehash_statement().digest() == n.stmt_hash, "both forms have one identifier")
    ctx.check(build("v", "ctor").verify(n), "a proof by the one form is accepted by the other")
    ctx.check(build("v", "op").verify(n), "a proof by the one form is accepted by the same form")
    if not marks and len(parts) < 4:
        n2 = build("p", "ctor").prove()
        ctx.check(build("v", "op").verify(n2), "a proof by the other form is accepted by the one")


def operands(ctx, kind, inner, change):
    """Composing does not change the operands, and changing the operands later does not change the
    composition (nor the other way around)."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p")
    zk = ctx.zk
    sub = {"and": AND(D(0), D(1)), "or": OR(D(0), D(1)), "N": AND(N(0), D(1)), "D": D(0)}[inner]
    last = D(2)
    whole = {"k": kind[0], "c": [sub, last]}
    p.known = p.known_ids(whole)
    a, b = p.build(sub, "t.0"), p.build(last, "t.1")

    def make(a, b):
        return {"and op": lambda: a & b, "or op": lambda: a | b, "and cls": lambda: zk.AndProofStmt(a, b),
                "or cls": lambda: zk.OrProofStmt(a, b)}[" ".join(kind)]()

    def fresh_v():
        v = Side(env, "v")
        return v, v.build(sub, "t.0"), v.build(last, "t.1")
    st = make(a, b)
    parts = st.subproofs[0]
    if change == "marks":
        a.set_simulated()
        b.set_simulated()
        for s in getattr(a, "subproofs", []):
            s.set_simulated()
    elif change == "simulate":
        a.simulate()
        b.simulate()
    elif change == "list":
        if hasattr(a, "subproofs"):
            a.subproofs.pop()
            a.subproofs[0] = b
    elif change == "composed":
        # the other direction: marking and using the composition leaves the operands alone
        for s in st.subproofs:
            s.set_simulated()
            for t in getattr(s, "subproofs", []):
                t.set_simulated()
        st.set_simulated()
        ctx.check(ctx.attempt(st.prove)[0] == "exc", "everything is marked")
        v, va, vb = fresh_v()
        ctx.check(va.verify(a.prove()), "an operand is not changed by what is done to the composition")
        ctx.check(vb.verify(b.prove()), "an operand is not changed by what is done to the composition")
        st2 = make(a, b)
        ctx.check(make(*fresh_v()[1:]).verify(st2.prove()), "operands can be composed again")
        raise Skip()
    n = st.prove()
    ctx.check(make(*fresh_v()[1:]).verify(n), "a composition is not changed by what is done to its operands")


def calls(ctx, tree, msg):
    """prove/verify are the prover's and verifier's methods; the default message is the empty one."""
    ctx.distinct_queries()
    env = Env(ctx)
    m = ctx.text("m") if msg else ""
    kw = {"message": m} if msg else {}
    p = Side(env, "p", "prove")
    st = p.build(tree)
    n1 = st.prove(p.dict, **kw)
    n2 = st.get_prover(p.dict).get_nizk_proof(**kw)
    if '"or"' in json.dumps(tree):
        ns = [n1, n2]
    else:
        ns = [n1, n2, st.prove(p.dict, m), st.get_prover(p.dict).get_nizk_proof(m), Side(env, "p", "ctor").build(tree).prove(message=m)]
    v = Side(env, "v").build(tree)
    for n in ns:
        ctx.check(v.verify(n, **kw), "all ways to prove are equivalent")
        ctx.check(v.get_verifier().verify_nizk(n, **kw), "all ways to verify are equivalent")
        ctx.check(Side(env, "v").build(tree).verify(n, m), "all ways to verify are equivalent")


def expressions(ctx, terms, style, g):
    """Expressions written as sums, as weighted sums or from Expression itself give one statement."""
    ctx.distinct_queries()
    env = Env(ctx)
    zk = ctx.zk
    G = env.group(g)
    if isinstance(g, str):
        G.generator()
    q = G.order()
    bases = {i: env.point("g", g) for i in range(max(terms) + 1)}
    vals = {i: env.value(i, q) for i in set(terms)}
    Ex, ws = ctx.m("zksk.expr").Expression, ctx.m("zksk.expr").wsum_secrets

    def expr(secrets, style):
        if style == "sum":
            e = None
            for n, i in enumerate(terms):
                t = secrets[i] * bases[n]
                e = t if e is None else e + t
            return e
        if style == "right":
            e = None
            for n, i in reversed(list(enumerate(terms))):
                t = secrets[i] * bases[n]
                e = t if e is None else t + e
            return e
        if style == "wsum":
            return ws([secrets[i] for i in terms], [bases[n] for n in range(len(terms))])
        e = None
        for n, i in enumerate(terms):
            t = Ex(secrets[i], bases[n])
            e = t if e is None else e + t
        return e
    for n in range(len(terms)):
        bases.setdefault(n, None)
        if bases[n] is None:
            bases[n] = env.point("g", g)
    lhs = None
    for n, i in enumerate(terms):
        t = vals[i] * bases[n]
        lhs = t if lhs is None else lhs + t
    ps = {i: zk.Secret(value=vals[i]) for i in set(terms)}
    e1 = expr(ps, style)
    ctx.check(e1.eval() == lhs, "the expression has the value of the sum")
    st = zk.DLRep(e1.eval(), expr(ps, style))
    n = st.prove()
    for other in ("sum", "right", "wsum", "Expression"):
        vs = {i: zk.Secret() for i in set(terms)}
        v = zk.DLRep(lhs, expr(vs, other))
        ctx.check(v.prehash_statement().digest() == n.stmt_hash, "both expressions give one identifier")
        ctx.check(v.verify(n), "a proof is accepted whatever way the expression was written")


def tuples(ctx, bind):
    """Lists and tuples of points mean the same."""
    ctx.distinct_queries()
    env = Env(ctx)
    zk = ctx.zk
    t = N(0, bind=bind)
    p = env.leaf("t", t)
    mk = {"list": list, "tuple": tuple}
    for a in mk:
        for b in mk:
            x = zk.Secret(value=env.value(0, p["q"]))
            n = zk.DLNotEqual(mk[a](p["p0"]), mk[b](p["p1"]), x, bind=bool(bind)).prove()
            v = zk.DLNotEqual(mk[b](p["p0"]), mk[a](p["p1"]), zk.Secret(), bind=bool(bind))
            ctx.check(v.verify(n), "lists and tuples of points mean the same")


def limits(ctx, a, b, com):
    """Range limits as integers or big numbers, given by position or by name."""
    ctx.distinct_queries()
    env = Env(ctx)
    zk = ctx.zk
    t = R(a, b)
    p = env.leaf("t", t)
    bn = ctx.const

    def forms(x, r):
        return [lambda: zk.RangeStmt(p["com"], p["g"], p["h"], a, b, x, r),
                lambda: zk.RangeStmt(p["com"], p["g"], p["h"], bn(a), bn(b), x, r),
                lambda: zk.RangeStmt(com=p["com"], g=p["g"], h=p["h"], a=bn(a), b=b, x=x, r=r)]
    k = ctx.choose("form", [0, 1, 2])
    n = forms(zk.Secret(value=p["x"]), zk.Secret(value=p["r"]))[k]().prove()
    for f in forms(zk.Secret(), zk.Secret()):
        ctx.check(f().verify(n), "limits may be written as integers or big numbers")


def nested(ctx, tree, parts):
    """A range statement is the conjunction that its parts make when written out."""
    ctx.distinct_queries()
    env = Env(ctx)
    zk = ctx.zk
    t = R(*tree)
    p = env.leaf("t", t)
    a, b = tree
    n = max((b - a - 1).bit_length(), 1)
    x, r = zk.Secret(value=p["x"]), zk.Secret(value=p["r"])
    proof = zk.RangeStmt(p["com"], p["g"], p["h"], a, b, x, r).prove()
    v = zk.AndProofStmt(zk.DLRep(p["com"], zk.Secret() * p["g"] + zk.Secret() * p["h"]),
                        zk.PowerTwoRangeStmt(p["com"] - a * p["g"], p["g"], p["h"], n),
                        zk.PowerTwoRangeStmt(p["com"] + ((1 << n) - b) * p["g"], p["g"], p["h"], n))
    ctx.check(v.verify(proof), "a range statement is the documented conjunction")


STATES = {"k": {}, "u": {"ok": 0}, "s": {"sim": 1}}


def cases(tier):
    out = []
    seen = set()

    def add(fn, name, cost=1, **kw):
        if name not in seen:
            seen.add(name)
            out.append(case(name, fn, cost=cost, **kw))
    k = 0
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        gs = groupings(n)
        for kind in ("and", "or"):
            for combo in itertools.product("kus", repeat=n):
                if kind == "and" and combo != ("k",) * n and combo.count("k") < n - 1:
                    continue
                if n == 4 and combo.count("k") + combo.count("u") < 3 or n > 4 and combo.count("k") < 4:
                    continue
                parts = [D(i, **STATES[c]) for i, c in enumerate(combo)]
                for m in [()] + [(i,) for i in range(n - 1)] + ([(0, 1)] if n == 3 else []):
                    k += 1
                    use = gs if n == 3 and (combo.count("k") >= 2 or tier != "quick") else [gs[k % len(gs)]]
                    for g in use:
                        add("operators", "operators %s %s %s marked %s" % (kind, g, "".join(combo), m), kind=kind, parts=parts, g=g, marks=list(m),
                            flow=bool(k % 2), cost=n)
    mixed = [[D(0), OR(D(1), D(2, ok=0)), D(3)], [AND(D(0), D(1)), D(2), D(3)], [N(0), D(1), D(2)], [D(1), D(2), N(0, bind=1)], [D(0), D(0), D(1)],
             [X(0, pre="point", inner="and"), D(1), OR(D(2), D(3))], [D(0, 1), D(1, 2), D(2, 0)], [U("eg", 0, 1), D(2), D(3)]]
    if tier != "quick":
        mixed += [[P(1), D(1), D(2)], [D(1), R(3, 4), D(2)], [B(0), D(1), D(2)], [X(0, pre="none"), N(1), D(2), D(3)]]
    for parts in mixed:
        for kind in ("and", "or"):
            if any(p["k"] == kind for p in parts):
                # an operator merges parts of its own kind; the constructor does not
                continue
            for g in groupings(len(parts)):
                for flow in (0, 1):
                    for m in ((), (0,)):
                        add("operators", "operators %s %s of %s marked %s flow%d" % (kind, g, ", ".join(map(show, parts)), m, flow), kind=kind,
                            parts=parts, g=g, marks=list(m), flow=bool(flow), cost=6)
    for kind in (("and", "op"), ("and", "cls"), ("or", "op"), ("or", "cls")):
        for inner in ("D", "and", "or", "N"):
            for change in ("marks", "simulate", "list", "composed"):
                add("operands", "operands %s of %s, %s" % (kind, inner, change), kind=list(kind), inner=inner, change=change, cost=3)
    for t in (D(0), D(0, 1), AND(D(0), D(1)), OR(D(0), D(1)), AND(D(0), OR(D(1), D(2))), N(0), N(0, bind=1), X(0, pre="point", inner="and"),
              X(0, pre="none"), U("eg", 0, 1), AND(N(0), D(1)), OR(AND(D(0), D(1)), D(2))):
        for msg in (0, 1):
            add("calls", "calls %s message%d" % (show(t), msg), tree=t, msg=msg, cost=3)
    for terms in ([0], [0, 1], [0, 0], [0, 1, 0], [0, 1, 2]):
        for style in ("sum", "right", "wsum", "Expression"):
            for g in (713, 415, "G1", "G2", "GT"):
                add("expressions", "expressions %s %s in %s" % (terms, style, g), terms=terms, style=style, g=g, cost=2)
    for b in (0, 1):
        add("tuples", "tuples bind%d" % b, bind=b, cost=4)
    for a, b in ((2, 4), (-1, 1), (3, 4)) if tier == "quick" else ((2, 4), (-1, 1), (3, 4), (0, 4), (-5, -2)):
        add("limits", "limits %d %d" % (a, b), a=a, b=b, com=0, cost=10)
        add("nested", "written out %d %d" % (a, b), tree=[a, b], parts=0, cost=10)
    for kind in ("and", "or"):
        parts = [D(i, ok=int(kind == "and" or i in (0, 6)), **({"sim": 1} if kind == "or" and i in (2, 3, 4) else {})) for i in range(7)]
        gl = gr = 0
        for i in range(6):
            gl, gr = (gl, 0), (0, gr)
        for g in (gl, gr, (((0, 0), (0, 0)), ((0, 0), 0))):
            for m in ((), (0,)):
                add("operators", "operators large %s %s marked %s" % (kind, g, m), kind=kind, parts=parts, g=g, marks=list(m), flow=False, cost=10)
    return out
