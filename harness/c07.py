"""C07: simulated transcripts satisfy the verification equation and look like real ones."""
from .common import *
from .c01 import prim_kinds, prim_trees

BOUNDS = {"quick": "every and/or tree of up to 3 leaves (seventeen large ones: up to 40 parts or terms, 6 levels) (with and without known witnesses) and every primitive alone, below "
          "and- and or-nodes; any public values (true or false statements), any given challenge, all coins",
          "thorough": "as quick with 4-leaf trees"}


def order(env, tree):
    k, l = first(tree)
    return env.leaf(k, l)["q"]


def first(t, key="t"):
    return first(t["c"][0], key + ".0") if "c" in t else (key, t)


def simulate(ctx, tree, given=False, side="v"):
    env = Env(ctx)
    st = Side(env, side).build(tree)
    if given:
        c = ctx.int("c", 0, (1 << 128) - 1)
        tr = st.simulate(challenge=c)
        ctx.check(tr.challenge == c, "the given challenge is used")
    else:
        tr = st.simulate()
        ctx.check(tr.challenge >= 0, "the drawn challenge is in the challenge space")
        ctx.check(tr.challenge < ctx.const(1 << 128), "the drawn challenge is in the challenge space")
    v = Side(env, "v").build(tree)
    ctx.check(v.verify_simulation_consistency(tr), "a simulated transcript satisfies the verification equation")
    if side == "v":
        ctx.check(st.verify_simulation_consistency(tr), "the simulator's own statement accepts it too")


def twice(ctx, tree):
    """Two simulations by one statement object, and the first one verified after the second."""
    ctx.distinct_queries()
    env = Env(ctx)
    st = Side(env, "v").build(tree)
    n0 = ctx.start_coins()
    a = st.simulate()
    b = st.simulate()
    v = Side(env, "v").build(tree)
    ctx.check(v.verify_simulation_consistency(a), "the first transcript is accepted")
    ctx.check(v.verify_simulation_consistency(b), "the second transcript is accepted")
    if nums(a.responses):
        masked(ctx, env, tree, [a, b], n0)


def ranged(ctx, env, tree, tr):
    """Responses are residues modulo the group order (sub-challenges: below 2^128)."""
    for path in positions(tr.responses):
        x, q = at(tr.responses, path), order_at(env, tree, path)
        ctx.check(x >= 0, "responses are not negative")
        ctx.check(x < (ctx.const(1 << 128) if q is None else q), "responses are in the range of honest ones")


def masked(ctx, env, tree, trs, n0):
    numbers, pts = {}, {}
    for tr in trs:
        published(ctx, env, tree, tr.responses, tr.precommitment, numbers, pts)
    for pub, what in ((numbers, "simulated numbers are uniform and independent"),
                      (pts, "simulated precommitted points are uniform and independent")):
        for q, xs in sorted(pub.items()):
            coins = [d for n, d in ctx.draws()[n0:] if int(n) >= q]
            ctx.check_masked(xs, coins, q, what)


def distribution(ctx, tree):
    ctx.distinct_queries()
    env = Env(ctx)
    st = Side(env, "v").build(tree)
    n0 = ctx.start_coins()
    tr = st.simulate()
    ranged(ctx, env, tree, tr)
    masked(ctx, env, tree, [tr], n0)


def shapes_agree(ctx, tree):
    """Simulated and honest transcripts have the same form."""
    env = Env(ctx)
    prover = Side(env, "p").build(tree).get_prover()
    pre = prover.precommit()
    h, com = prover.commit()
    resp = prover.compute_response(ctx.int("c", 0, (1 << 128) - 1))
    tr = Side(env, "v").build(tree).simulate()
    ctx.check(shape(pre) == shape(tr.precommitment), "precommitments have the same form")
    ctx.check(shape(com) == shape(tr.commitment), "commitments have the same form")
    ctx.check(shape(resp) == shape(tr.responses), "responses have the same form")
    ctx.check(type(h) is type(tr.stmt_hash) or (isinstance(h, bytes) and isinstance(tr.stmt_hash, bytes)), "identifiers have the same form")


def altered(ctx, tree):
    """The consistency check is not vacuous: an altered challenge or response is not consistent."""
    env = Env(ctx)
    st = Side(env, "v").build(tree)
    tr = st.simulate()
    q = order(env, tree)
    com = tr.commitment
    path = ctx.choose("where", [None] + positions(tr.responses))
    if path is None:
        c = ctx.int("c'", 0, (1 << 128) - 1)
        ctx.assume(c != tr.challenge)
        tr2 = ctx.zk.SimulationTranscript(com, c, tr.responses, tr.precommitment, tr.stmt_hash)
    else:
        r = ctx.int("r'", -W, W)
        old = at(tr.responses, path)
        if is_subchallenge(tree, path):
            ctx.assume(r != old)
        else:
            ctx.assume((r - old) % q != 0)
        tr2 = ctx.zk.SimulationTranscript(com, tr.challenge, replace_at(tr.responses, path, r), tr.precommitment, tr.stmt_hash)
    for p in env.pub.values():
        if "lhs" in p:
            ctx.assume(ne(ctx, p["lhs"]))
    v = Side(env, "v").build(tree)
    ctx.check(not ctx.accepts(v.verify_simulation_consistency, tr2), "an altered transcript is not consistent")


def ne(ctx, x):
    return x != x.group.infinite()


def plain(t):
    return not any(l["k"] in "NPRBX" for l in leaves(t))


def cases(tier):
    nmax = 3 if tier == "quick" else 4
    out = []
    pub = public_trees(nmax)
    for n, t in enumerate(pub):
        out.append(case("simulate " + show(t), "simulate", tree=t))
        out.append(case("given " + show(t), "simulate", tree=t, given=True))
        if len(leaves(t)) < 3 or tier != "quick" or n % 3 == 0:
            out.append(case("twice " + show(t), "twice", tree=t))
        out.append(case("distribution " + show(t), "distribution", tree=t))
    for t in tree_cases(2):
        out.append(case("with witness " + show(t), "simulate", tree=t, side="p"))
    for t in tree_cases(nmax, nmin=nmax):
        out.append(case("shape " + show(t), "shapes_agree", tree=t))
    for t in (D(0, ok=0), D(0, 1, ok=0), D(0, 0, ok=0), AND(D(0, ok=0), D(1, ok=0)), OR(D(0, ok=0), D(1, ok=0))):
        out.append(case("altered " + show(t), "altered", tree=t))
    for g in (415, "G1", "G2", "GT"):
        for t in (D(0, ok=0, g=g), AND(D(0, ok=0, g=g), D(0, 1, ok=0, g=g)), OR(D(0, ok=0, g=g), D(1, 2, ok=0, g=g))):
            out.append(case("simulate " + show(t), "simulate", tree=t))
            out.append(case("distribution " + show(t), "distribution", tree=t))
    for n, t in enumerate(obj_trees(tier, True)):
        out.append(case("simulate object twice " + show(t), "simulate", tree=t, given=n % 2 == 0, cost=4))
        if n % 2 or tier != "quick":
            out.append(case("distribution object twice " + show(t), "distribution", tree=t, cost=4))
    for k in (P(1), P(2), R(2, 5), R(3, 4), R(-1, 0), N(0), B(0), D(0)):
        f = dict(k, false=1)
        for t in (f, AND(f, D(5)), OR(f, D(5, ok=0))):
            out.append(case("false witness " + show(t), "simulate", tree=t, side="p", cost=4))
    for k in prim_kinds(tier):
        u = dict(k, ok=0)
        heavy = 10 if k["k"] in "RPB" else 2
        d = D(5, ok=0)
        for t in (u, AND(u, d), OR(u, d), OR(d, u), OR(AND(u, d), D(6, ok=0)), AND(OR(u, d), D(6, ok=0))):
            out.append(case("simulate " + show(t), "simulate", tree=t, cost=heavy))
            if t is u or tier != "quick":
                out.append(case("given " + show(t), "simulate", tree=t, given=True, cost=heavy))
        out.append(case("twice " + show(u), "twice", tree=u, cost=heavy))
        out.append(case("with witness " + show(k), "simulate", tree=k, side="p", cost=heavy))
        out.append(case("distribution " + show(u), "distribution", tree=u, cost=heavy))
        for t in (k, AND(k, D(5)), OR(k, D(5, ok=0)), OR(u, D(5))):
            out.append(case("shape " + show(t), "shapes_agree", tree=t, cost=heavy))
    for n, (name, t) in enumerate(dict(big_trees(), **huge_trees(40)).items()):
        out.append(case("simulate large " + name, "simulate", tree=unknown(t), given=n % 2 == 0, cost=8))
        out.append(case("distribution large " + name, "distribution", tree=unknown(t), cost=8))
        out.append(case("shape large " + name, "shapes_agree", tree=t, cost=8))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        u = unknown(t)
        out.append(case("simulate curve " + show(u), "simulate", tree=u, cost=cost))
        out.append(case("distribution curve " + show(u), "distribution", tree=u, cost=cost))
        out.append(case("shape curve " + show(t), "shapes_agree", tree=t, cost=cost))
    return out
