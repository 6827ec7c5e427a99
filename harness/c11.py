"""C11: forbidden reuses of secrets are never accepted, permitted ones are not refused."""
from .common import *

BOUNDS = {"quick": "and/or trees of 2-3 leaves (4 selected; 42 of up to 17 leaves, conflicts far apart) with every partition of the secrets over the leaves, leaves with two "
          "terms, inequality, BBS+ and custom extended leaves; every assignment of the groups 713, 415, G1, G2, GT to two (three "
          "selected) leaves; every prover: honest, simulator, and arbitrary transcripts of the right shape, interactive and not",
          "thorough": "as quick with all trees of 4 leaves"}


def secret_tree(t):
    """Where secrets sit for the composition rule: leaf = list of secrets, inner = (kind, children)."""
    if "c" in t:
        return (t["k"], [secret_tree(c) for c in t["c"]])
    if t["k"] == "N" and not t.get("bind"):
        return []
    if t["k"] == "X" and t.get("inner") == "or":
        return ("or", [list(t["s"]), []])
    return list(t["s"])


def secrets_of(s):
    return s if isinstance(s, list) else [x for c in s[1] for x in secrets_of(c)]


def nearest_ors(s):
    """Or-nodes below s that are reached through conjunctions only."""
    if isinstance(s, list):
        return []
    if s[0] == "or":
        return [s]
    return [o for c in s[1] for o in nearest_ors(c)]


def mixes(s):
    """Is a secret used inside and outside of a disjunction within a conjunction?"""
    if isinstance(s, list):
        return False
    if s[0] == "and":
        mine = secrets_of(s)
        for o in nearest_ors(s):
            inner = secrets_of(o)
            if any(mine.count(x) > inner.count(x) for x in inner):
                return True
    return any(mixes(c) for c in s[1])


def orders(t):
    """Is a secret used with groups of different orders?"""
    seen = {}
    for l in leaves(t):
        g = l.get("g", "G1" if l["k"] == "B" else DEF)
        for i in l["s"]:
            if l["k"] == "N" and not l.get("bind"):
                continue
            if seen.setdefault(i, cls(g)) != cls(g):
                return True
    return False


def cls(g):
    return "bp" if isinstance(g, str) else g


def forbidden(t):
    return "c" in t and (mixes(secret_tree(t)) or orders(t))


def honest(ctx, tree, msg):
    """The library's own prover, whatever it does, does not get a forbidden statement accepted."""
    env = Env(ctx)
    p = Side(env, "p")
    bad = forbidden(tree)
    kb, st = ctx.attempt(p.build, tree)
    if kb == "exc":
        ctx.check(bad, "only forbidden statements are refused")
        raise Skip()
    m = ctx.text("m") if msg else ""
    k, n = ctx.attempt(st.prove, message=m)
    if k == "ok":
        ctx.check(not bad, "a forbidden statement is not proven")
        ok = ctx.accepts(Side(env, "v").build(tree).verify, n, message=m)
        ctx.check(ok != bad, "a forbidden statement is not accepted" if bad else "a permitted statement is accepted")
        ok = ctx.accepts(st.verify, n, message=m)
        ctx.check(ok != bad, "a forbidden statement is not accepted" if bad else "a permitted statement is accepted")
    else:
        ctx.check(bad, "a permitted statement is not refused")


def flow(ctx, tree):
    env = Env(ctx)
    p = Side(env, "p").build(tree)
    v = Side(env, "v").build(tree)
    pr = p.get_prover()
    if pr is None:
        ctx.check(forbidden(tree), "a permitted statement is not refused")
        raise Skip()
    if forbidden(tree):
        sent = ctx.attempt(lambda: (pr.precommit(), pr.commit()))
        ctx.check(sent[0] == "exc", "a forbidden statement is not proven")
    k, r = ctx.attempt(run_interactive, ctx, pr, v.get_verifier())
    if forbidden(tree):
        ctx.check(k == "exc" or not r[0], "a forbidden statement is not accepted")
    else:
        ctx.check(k == "ok", "a permitted statement is not refused")
        ctx.check(r[0], "a permitted statement is accepted")


def arbitrary(ctx, tree):
    """No transcript at all makes a verifier accept a forbidden statement."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    c = ctx.int("c", 0, (1 << 128) - 1)
    ctx.check(not a.run(c, a.responses()), "a forbidden statement is not accepted")
    st, v = a.verifier()
    n = ctx.zk.NIZK(ctx.int("C", 0, (1 << 256) - 1), a.responses(), a.pre, st.prehash_statement().digest())
    ctx.check(not ctx.accepts(Side(env, "v").build(tree).verify, n), "a forbidden statement is not accepted")
    ctx.check(not ctx.accepts(Side(env, "v").build(tree).verify_simulation_consistency, a.tr), "a forbidden statement is not accepted")


def mixed_bases(ctx, gs, lhs):
    """One representation over several groups cannot be made or is never accepted."""
    env = Env(ctx)
    zk = ctx.zk
    bases = [env.point("g", g) for g in gs]
    y = env.point("Y", lhs, inf=True)
    vals = [ctx.scalar("x", env.group(g).order()) for g in gs]

    def go():
        xs = [zk.Secret(value=v) for v in vals]
        st = zk.DLRep(y, zk.wsum_secrets(xs, bases))
        tr = st.simulate()
        return tr, zk.DLRep(y, zk.wsum_secrets([zk.Secret() for v in vals], bases))
    k, r = ctx.attempt(go)
    if len({str(g) for g in gs}) > 1:
        ctx.check(k == "exc", "a representation over bases of several groups is refused")
        raise Skip()
    if k == "ok":
        tr, st = r
        v = st.get_verifier()
        c, rs = ctx.int("c", 0, (1 << 128) - 1), fresh(ctx, tr.responses, "r")
        k, h = ctx.attempt(lambda: st.prehash_statement().digest())
        ctx.script([c])
        k, _ = ctx.attempt(v.send_challenge, (h, fresh(ctx, tr.commitment, "com")))
        ctx.check(k == "exc" or not ctx.accepts(v.verify, rs), "a representation in another group than its bases is not accepted")
    else:
        ctx.check(True, "refused")


def partitions_of(n):
    out = [[]]
    for _ in range(n):
        out = [p + [k] for p in out for k in range((max(p) + 1 if p else 0) + 1)]
    return out


def pool(tier):
    ts = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for sh in shapes(n):
            for pat in partitions_of(n):
                ts.append(fill(sh, [D(i) for i in pat]))
    ts += [AND(D(0), OR(D(0, 1), D(2))), AND(D(0, 1), OR(D(2), D(1, 2))), AND(D(0, 1), OR(D(2), D(3))), OR(D(0, 1), AND(D(1), D(0))),
           AND(OR(D(0), D(1)), OR(D(1), D(2))), AND(OR(D(0), D(1)), OR(D(2), D(0))), AND(OR(D(0), D(1)), OR(D(2), D(3))),
           AND(OR(D(0), D(0)), OR(D(1), D(1))), AND(D(0), AND(D(1), OR(D(0), D(2)))), AND(D(0), AND(D(1), OR(D(1), D(2)))),
           AND(AND(D(0), OR(D(1), D(2))), D(1)), OR(AND(D(0), OR(D(0), D(1))), D(2)), OR(D(2), AND(D(0), OR(D(1), D(0)))),
           OR(AND(D(0), OR(D(1), D(2))), D(1)), AND(OR(AND(D(0), OR(D(1), D(2))), D(1)), D(3)),
           AND(OR(AND(D(0), OR(D(1), D(2))), D(1)), D(2)), AND(OR(OR(D(0), D(1)), D(2)), D(1)), AND(OR(AND(D(0), D(1)), D(2)), D(1)),
           AND(D(0, 0), OR(D(1), D(2))), AND(OR(D(0, 0), D(1)), D(0))]
    ts += [AND(D(0), D(1), OR(D(2), D(1))), AND(D(0), D(1), D(2), OR(D(3), D(0))), AND(OR(D(0), D(1)), OR(D(2), D(3)), OR(D(4), D(0))),
           AND(D(0), OR(D(1), D(2)), D(2)), AND(D(0), D(1), OR(D(2), D(3), D(1))), OR(D(3), D(2), AND(D(0), D(1), OR(D(2), D(1)))),
           AND(D(0), D(1), AND(D(2), D(3), OR(D(4), D(0)))), AND(D(0), D(1), OR(D(2), D(3), D(4))), AND(OR(D(0), D(1), D(2)), D(3), D(2)),
           AND(D(0), D(1), D(2), D(0, g=415)), AND(D(0, 1, 2), D(3), D(4, g=415), D(2, g=415)), OR(D(0), D(1), D(2), D(0, g=415))]
    x = lambda i, inner, pre="empty": X(i, inner=inner, pre=pre)
    ts += [AND(N(0, bind=1), OR(D(0), D(1))), AND(N(0), OR(D(0), D(1))), AND(OR(N(0, bind=1), D(1)), D(0)), AND(OR(N(0), D(1)), D(0)),
           AND(N(0, bind=1), D(0)), OR(N(0, bind=1), D(0)), AND(N(0, bind=1), N(0, bind=1)), AND(D(0), OR(D(1), AND(N(0, bind=1), D(2)))),
           AND(B(0), OR(D(0, g="G1"), D(1, g="G1"))), AND(OR(B(0), D(1, g="G1")), D(0, g="G1")), AND(B(0), D(0, g="GT")),
           AND(B(0, bind=0), OR(D(0, g="G1"), D(1, g="G1"))), AND(D(0), B(0)), AND(N(0, bind=1), D(0, g=415)), AND(N(0), D(0, g=415)),
           OR(N(0, bind=1), D(0, g=415))]
    for inner in ("dl", "and", "or"):
        ts += [AND(D(0), x(0, inner)), AND(x(0, inner), D(0)), AND(x(0, inner), D(1)), OR(x(0, inner), D(0)), AND(OR(x(0, inner), D(1)), D(0)),
               AND(x(0, inner, "point"), x(0, inner, "point")), AND(OR(x(0, inner), D(1)), D(2)), OR(AND(x(0, inner), D(0)), D(1)),
               AND(AND(x(0, inner, "none"), D(1)), D(0))]
    gs = [713, 415, "G1", "G2", "GT"]
    for a in gs:
        for b in gs:
            for i in (0, 1):
                ts += [AND(D(0, g=a), D(i, g=b)), OR(D(0, g=a), D(i, g=b))]
    for a, b, c in ((713, 713, 415), (415, 713, 713), (713, 415, 713), ("G1", "GT", "G2"), ("G1", 713, "G2"), ("G1", "G2", 415)):
        for pat in ((0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, 2)):
            for sh in shapes(3):
                ts.append(fill(sh, [D(i, g=g) for i, g in zip(pat, (a, b, c))]))
    seen, out = set(), []
    for t in ts:
        if show(t) not in seen:
            seen.add(show(t))
            out.append(t)
    return out


def cases(tier):
    out = []
    for t in pool(tier):
        bad = forbidden(t)
        heavy = any(l["k"] == "B" for l in leaves(t))
        tag = "forbidden " if bad else "permitted "
        out.append(case(tag + "honest " + show(t), "honest", tree=t, msg=bool(len(out) % 2), cost=8 if heavy else 1))
        if bad:
            out.append(case(tag + "arbitrary " + show(t), "arbitrary", tree=t, cost=8 if heavy else 1))
            out.append(case(tag + "flow " + show(t), "flow", tree=t, cost=8 if heavy else 1))
            for pos in range(len(leaves(t))) if len(leaves(t)) < 4 else ():
                u = with_unknown(t, pos)
                if provable(u):
                    out.append(case(tag + "honest " + show(u), "honest", tree=u, msg=False, cost=8 if heavy else 1))
        elif heavy or len(leaves(t)) < 3:
            out.append(case(tag + "flow " + show(t), "flow", tree=t, cost=8 if heavy else 1))
    gs = [713, 415, "G1", "G2", "GT"]
    for a in gs:
        for b in gs:
            if a != b:
                out.append(case("bases %s %s" % (a, b), "mixed_bases", gs=[a, b], lhs=a))
                out.append(case("bases %s %s %s" % (a, a, b), "mixed_bases", gs=[a, a, b], lhs=b))
                out.append(case("left side %s %s" % (a, b), "mixed_bases", gs=[b], lhs=a))
                out.append(case("left side %s %s %s" % (a, b, b), "mixed_bases", gs=[b, b], lhs=a))
    for name, t in large(8):
        bad = forbidden(t)
        tag = "forbidden " if bad else "permitted "
        out.append(case(tag + "honest large " + name, "honest", tree=t, msg=False, cost=10))
        out.append(case(tag + "flow large " + name, "flow", tree=t, cost=10))
        if bad:
            out.append(case(tag + "arbitrary large " + name, "arbitrary", tree=unknown(t), cost=10))
    return out


def large(n):
    """Conflicts between parts far apart: in wide conjunctions, deep below, behind many other secrets; and the same without."""
    d = [D(i) for i in range(n)]
    out = []
    for name, x in (("same", 0), ("other", n + 1)):
        for pos, o in (("last", OR(D(x), D(n))), ("last, second", OR(D(n), D(x))), ("last, many", OR(D(n), AND(D(n), D(n + 2), D(x))))):
            out.append(("wide %s %s" % (pos, name), AND(*d, o)))
        out.append(("wide first %s" % name, AND(OR(D(x), D(n)), *reversed(d))))
        t = OR(D(n), D(x))
        for i in range(5):
            t = AND(D(i), t)
        out.append(("deep %s" % name, t))
        t = OR(D(n), D(n + 5), OR(D(n + 2), D(x)))
        out.append(("deep left %s" % name, AND(AND(AND(AND(D(0), D(1)), D(2)), D(3)), AND(AND(D(4), t), D(5)))))
        t = AND(D(x), D(n))
        for i in range(1, 4):
            t = AND(D(10 * i), OR(D(10 * i + 1), t))
        out.append(("alternating %s" % name, AND(D(0), t)))
        out.append(("long %s" % name, AND(D(*range(n)), OR(D(*range(n + 2, 2 * n + 2)), D(n, x)))))
        out.append(("two disjunctions %s" % name, AND(*[OR(D(i), D(n + 9 + i)) for i in range(1, 4)], OR(D(x), D(n)), OR(D(0), D(n + 3)))))
    for g in (713, 415):
        out.append(("group last %s" % g, AND(*d[1:-1], D(0), D(n - 1, 0, g=g))))
        out.append(("group long %s" % g, AND(D(*range(n)), D(n, n + 1, n - 1, g=g))))
        out.append(("group deep %s" % g, AND(D(0), OR(D(1), AND(D(2), OR(D(3), AND(D(4), D(4, g=g))))))))
    return out


def with_unknown(t, pos):
    """The same tree with the secrets of one leaf unknown (in all leaves)."""
    ids = set(leaves(t)[pos]["s"])

    def go(s):
        if "c" in s:
            return dict(s, c=[go(c) for c in s["c"]])
        return dict(s, ok=0) if ids & set(s["s"]) else s
    return go(t)
