"""C09: a disjunction does not reveal which alternative the prover used."""
from .common import *
from .c01 import prim_kinds

BOUNDS = {"quick": "disjunctions of 2-4 branches, nested and mixed trees of up to 3 leaves, selected ones of 10 branches and 6 levels, every primitive as a branch; every "
          "set of known branches and every branch choice; every linear combination (mod 2^128) of all but one of the "
          "sub-challenges, and (mod the group order) of all responses; all secrets, challenges and coins",
          "thorough": "as quick with 4-leaf trees"}


def run(ctx, tree, kind, env=None):
    env = env or Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    n0 = ctx.start_coins()
    if kind == "nizk":
        n = st.prove(message=ctx.text("m"))
        return env, n0, n.precommitment, None, n.challenge, n.responses, n
    prover = st.get_prover()
    pre = prover.precommit()
    _, com = prover.commit()
    c = ctx.int("c", 0, (1 << 128) - 1)
    return env, n0, pre, com, c, prover.compute_response(c), None


def ors(tree, r, c, path=()):
    """(sub-challenges, challenge of the node) of every or-node, outermost first."""
    out = []
    if tree["k"] == "and":
        for s, x in zip(tree["c"], r):
            out += ors(s, x, c)
    elif tree["k"] == "or":
        out.append((list(r[0]), c))
        for s, ci, x in zip(tree["c"], r[0], r[1]):
            out += ors(s, x, ci)
    return out


def challenges_masked(ctx, tree, kind):
    """Sub-challenges: in range, sum to the challenge, any n-1 of them independent and uniform."""
    ctx.distinct_queries()
    env, n0, pre, com, c, resp, n = run(ctx, tree, kind)
    M = 1 << 128
    nodes = ors(tree, resp, c)
    coins = [d for b, d in ctx.draws()[n0:] if int(b) >= M]
    pub = [[]]
    for subs, cc in nodes:
        s = ctx.const(0)
        for x in subs:
            ctx.check(x >= 0, "sub-challenges are not negative")
            ctx.check(x < ctx.const(M), "sub-challenges are below 2^128")
            s = s + x
        ctx.check((s - cc) % ctx.const(M) == 0, "sub-challenges sum to the challenge")
        pub = [p + [x for j, x in enumerate(subs) if j != i] for p in pub for i in range(len(subs))]
    for p in pub:
        ctx.check_masked(p, coins, M, "sub-challenges are masked by independent coins")


def responses_masked(ctx, tree, kind):
    """Responses: in range, uniform and independent, whichever branch was used."""
    ctx.distinct_queries()
    env, n0, pre, com, c, resp, n = run(ctx, tree, kind)
    for path in positions(resp):
        x, q = at(resp, path), order_at(env, tree, path)
        if q is not None:
            ctx.check(x >= 0, "responses are not negative")
            ctx.check(x < q, "responses are below the group order")
    for q, (xs, _) in sorted(by_order(env, tree, resp).items()):
        cs = [d for b, d in ctx.draws()[n0:] if int(b) >= q]
        ctx.check_masked([xs], cs, q, "responses are masked by independent coins")


def form(ctx, tree, kind):
    """What is published has the same form for every set of known branches, and equals the form of a
    simulation."""
    env, n0, pre, com, c, resp, n = run(ctx, tree, kind)
    pub = strip(tree)
    env2 = Env(ctx)
    tr = Side(env2, "v").build(pub).simulate()
    ctx.check(shape(pre) == shape(tr.precommitment), "the form of the precommitment does not depend on the branch")
    ctx.check(shape(resp) == shape(tr.responses), "the form of the responses does not depend on the branch")
    if com is not None:
        ctx.check(shape(com) == shape(tr.commitment), "the form of the commitment does not depend on the branch")
    if n is not None:
        ctx.check(sorted(vars(n)) == ["challenge", "precommitment", "responses", "stmt_hash"], "nothing else is published")
        ctx.check(is_num(n.challenge), "the challenge is a number")


def identifier(ctx, tree, kind):
    """The statement identifier does not depend on the branch."""
    env, n0, pre, com, c, resp, n = run(ctx, tree, "nizk")
    st = Side(env, "v").build(tree)
    st.get_verifier().process_precommitment(n.precommitment)
    ctx.check(st.prehash_statement().digest() == n.stmt_hash, "the identifier does not depend on the branch")


def points_hidden(ctx, tree, kind):
    """Precommitted points are masked, and never the neutral element more often than a random point."""
    ctx.distinct_queries()
    env, n0, pre, com, c, resp, n = run(ctx, tree, kind)
    numbers, pts = {}, {}
    published(ctx, env, tree, resp, pre, numbers, pts)
    for pub, what in ((numbers, "precommitted numbers and responses are masked by independent coins"), (pts, "precommitted points are masked")):
        for q, xs in sorted(pub.items()):
            cs = [d for b, d in ctx.draws()[n0:] if int(b) >= q]
            ctx.check_masked(xs, cs, q, what)


def strip(t):
    if "c" in t:
        return {"k": t["k"], "c": [strip(c) for c in t["c"]]}
    t = dict(t, ok=0)
    t.pop("sim", None)
    return t


def or_trees(n):
    return [t for t in tree_cases(n, nmin=n) if "or" in repr(t)]


def cases(tier):
    ts = or_trees(2) + or_trees(3)
    if tier != "quick":
        ts += or_trees(4)
    u = [D(i, ok=0) for i in range(4)]
    k = [D(i) for i in range(4)]
    ts += [OR(k[0], u[1], u[2], u[3]), OR(u[0], u[1], u[2], k[3]), OR(u[0], k[1], k[2], u[3]), OR(*k)]
    ts += [OR(D(0, 1), D(2, 3, ok=0)), OR(D(0, 1, ok=0), D(2, 3)), OR(D(0, 0, ok=0), D(1)), OR(D(0, sim=1), D(1)), OR(D(0), D(0, ok=0, sim=1))]
    for g in ("G1", "GT", 415):
        ts += [OR(D(0, g=g), D(1, g=g, ok=0)), OR(D(0, g=g, ok=0), D(1))]
    out = []
    for n, t in enumerate(ts):
        kind = ("nizk", "interactive")[n % 2]
        other = ("interactive", "nizk")[n % 2]
        out.append(case("challenges %s %s" % (kind, show(t)), "challenges_masked", tree=t, kind=kind))
        out.append(case("responses %s %s" % (other, show(t)), "responses_masked", tree=t, kind=other))
        out.append(case("form %s %s" % (kind, show(t)), "form", tree=t, kind=kind))
        if n % 3 == 0 or tier != "quick":
            out.append(case("challenges %s %s" % (other, show(t)), "challenges_masked", tree=t, kind=other))
            out.append(case("responses %s %s" % (kind, show(t)), "responses_masked", tree=t, kind=kind))
            out.append(case("identifier %s" % show(t), "identifier", tree=t, kind=kind))
    for n, t in enumerate(t for t in obj_trees(tier) if t["k"] == "or"):
        kind = ("nizk", "interactive")[n % 2]
        out.append(case("challenges object twice %s %s" % (kind, show(t)), "challenges_masked", tree=t, kind=kind, cost=5))
        out.append(case("responses object twice %s %s" % (kind, show(t)), "responses_masked", tree=t, kind=kind, cost=5))
        out.append(case("form object twice %s %s" % (kind, show(t)), "form", tree=t, kind=kind, cost=5))
    for k in prim_kinds(tier):
        un = dict(k, ok=0)
        heavy = 10 if k["k"] in "RPB" else 2
        pts = [OR(k, D(5, ok=0)), OR(D(5, ok=0), k), OR(un, D(5)), OR(D(5), un), OR(k, dict(un, s=[7 + i for i in un["s"]])),
               OR(un, dict(k, s=[7 + i for i in k["s"]])), OR(AND(k, D(5)), D(6, ok=0)), OR(AND(un, D(5)), D(6))]
        for n, t in enumerate(pts):
            kind = ("nizk", "interactive")[n % 2]
            if tier == "quick" and k["k"] in "RB" and n > 5:
                continue
            out.append(case("challenges %s %s" % (kind, show(t)), "challenges_masked", tree=t, kind=kind, cost=heavy))
            if k["k"] != "R" or n < 4:
                out.append(case("responses %s %s" % (kind, show(t)), "responses_masked", tree=t, kind=kind, cost=heavy))
            out.append(case("form %s %s" % (kind, show(t)), "form", tree=t, kind=kind, cost=heavy))
            if k["k"] in "NPRB" or k.get("pre") in ("point", "list"):
                out.append(case("points %s %s" % (kind, show(t)), "points_hidden", tree=t, kind=kind, cost=heavy))
            if n < 4:
                out.append(case("identifier %s" % show(t), "identifier", tree=t, kind=kind, cost=heavy))
    for n, (name, t) in enumerate(dict(big_trees(), **huge_trees(40)).items()):
        if "|" in show(t):
            kind = ("nizk", "interactive")[n % 2]
            for f in ("challenges_masked", "responses_masked", "form", "identifier"):
                out.append(case("%s large %s" % (f, name), f, tree=t, kind=kind, cost=10))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        if t["k"] == "or":
            for f in ("challenges_masked", "responses_masked", "form", "identifier"):
                out.append(case("%s curve %s" % (f, show(t)), f, tree=t, kind=("nizk", "interactive")[n % 2], cost=3))
    for g in CURVES:
        for k in (N(0, g=g), P(1, g=g)):
            for t in (OR(k, D(5, g=g, ok=0)), OR(dict(k, ok=0), D(5, g=g))):
                for f in ("challenges_masked", "responses_masked", "form", "points_hidden"):
                    out.append(case("%s curve %s" % (f, show(t)), f, tree=t, kind="nizk", cost=10))
    return out
