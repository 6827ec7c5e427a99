"""C23: primitives written by users inherit completeness, simulation, validation and binding."""
from .common import *
from . import c01, c02, c07
from .c12 import run as choose_branch

BOUNDS = {"quick": "eight user primitives (construct_stmt only: one representation, ElGamal plaintext, a disjunction, a disjunction inside a "
          "conjunction; with precommitments: the documented inequality, a nested dictionary, one that the statement does not use) alone and in and/or trees of up to 3 "
          "leaves, both flows; all values, coins, precommitments, commitments, challenges and responses",
          "thorough": "as quick with more groups and trees"}


def nizk(ctx, **k):
    c01.nizk(ctx, **k)


def flow(ctx, **k):
    c02.flow(ctx, **k)


def simulate(ctx, **k):
    c07.simulate(ctx, **k)


def twice(ctx, **k):
    c07.twice(ctx, **k)


def distribution(ctx, **k):
    c07.distribution(ctx, **k)


def shapes_agree(ctx, **k):
    c07.shapes_agree(ctx, **k)


def branch(ctx, **k):
    choose_branch(ctx, **k)


def sound(ctx, tree, nizk):
    (sound_nizk if nizk else sound_interactive)(ctx, tree)


def no_witness(ctx, tree):
    """Without the values there is no prover and no proof, simulations work all the same."""
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    ctx.check(st.get_prover() is None, "no prover without the values")
    k, n = ctx.attempt(st.prove)
    ctx.check(k == "exc", "no proof without the values")
    tr = st.simulate()
    ctx.check(Side(env, "v").build(tree).verify_simulation_consistency(tr), "a simulated transcript is consistent")


def refused(ctx, tree, pos, how, nizk):
    """A precommitment that validate refuses is never accepted, wherever the primitive stands."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    key = ".".join(["t"] + [str(i) for i in pos])
    l = dict(keyed(tree))[key]
    old = pre_of(a.pre, key)
    G = env.group(l.get("g", DEF))
    if how == "neutral":
        new = G.infinite() if l["u"] == "ne" else dict(old, P=G.infinite())
    elif how == "t":
        t = ctx.int("t", -W, 0)
        new = dict(old, t=t, z=[1, [t, "text"]])
    elif how == "z":
        t = ctx.int("u", -W, W)
        ctx.assume(t != old["t"])
        new = dict(old, z=[1, [t, "text"]])
    else:
        new = dict(old, z=[1, [old["t"], "other"]])
    a.pre = replace_at(a.pre, list(pos), new)
    if nizk:
        st, v = a.verifier()
        n = ctx.zk.NIZK(ctx.int("C", 0, (1 << 256) - 1), a.responses(), a.pre, st.prehash_statement().digest())
        ctx.check(not ctx.accepts(Side(env, "v").build(tree).verify, n), "what validate refuses is not accepted")
    else:
        ctx.check(not a.run(ctx.int("c", 0, (1 << 128) - 1), a.responses()), "what validate refuses is not accepted")


def bound(ctx, tree):
    """Any changed part of the precommitment of an honest proof makes it invalid."""
    ctx.distinct_queries()
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    n = st.prove()
    path = ctx.choose("where", [p for p in positions(n.precommitment) if not isinstance(at(n.precommitment, p), str)])
    old = at(n.precommitment, path)
    if is_num(old):
        new = ctx.int("n", -W, W)
    elif isinstance(old, int):
        new = old + 1
    else:
        new = ctx.point("P", old.group, inf=True) if type(old).__name__ == "EcPt" else ctx.bp_point("P", old.group, inf=True)
    d = same_value(ctx, old, new)
    ctx.assume(not d if isinstance(d, bool) else ~d)
    m = ctx.zk.NIZK(n.challenge, n.responses, replace_at(n.precommitment, path, new), n.stmt_hash)
    ctx.guess(n.challenge)
    v = Side(env, "v").build(tree)
    ctx.check(not ctx.accepts(v.verify, m), "a changed precommitment is not accepted")
    ctx.check(Side(env, "v").build(tree).verify(n), "the unchanged proof is")


def other(ctx, first, second):
    """A proof by one primitive is not accepted by another one over the same public values."""
    env = Env(ctx)
    p = Side(env, "p")
    n = p.build(first).prove()
    # the same public part for the other one
    l = env.leaf("t", first)
    env.pub["t"] = {k: l.get(k, l["lhs"]) for k in ("g0", "h0", "alt", "lhs", "c1", "q")}
    if "h0" not in l:
        env.pub["t"]["h0"] = l["g0"]
    ctx.check(not ctx.accepts(Side(env, "v").build(second).verify, n), "a proof by one primitive is not accepted by another one")


def history(ctx, tree, order):
    """Proving, simulating and verifying with one object after each other."""
    ctx.distinct_queries()
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    v = Side(env, "v").build(tree)
    for o in order:
        if o == "p":
            n = st.prove()
            ctx.check(v.verify(n), "every proof is accepted")
            ctx.check(Side(env, "v").build(tree).verify(n), "every proof is accepted")
        elif o == "v":
            ctx.check(st.verify(Side(env, "p").build(tree).prove()), "proofs by others are accepted by a statement that proves")
        elif o == "i":
            ctx.check(run_interactive(ctx, st.get_prover(), v.get_verifier())[0], "every session is accepted")
        elif o == "w":
            w = v.get_verifier()
            for _ in range(2):
                ctx.check(run_interactive(ctx, Side(env, "p").build(tree).get_prover(), w)[0], "every session of one verifier is accepted")
        elif o == "b":
            w, q = v.get_verifier(), st.get_prover()
            for _ in range(2):
                ctx.check(run_interactive(ctx, q, w)[0], "every session of one prover and one verifier is accepted")
        else:
            ctx.check(v.verify_simulation_consistency(Side(env, "v").build(tree).simulate()), "every simulation is consistent")


def kinds():
    return [U("rep", 0), U("eg", 0, 1), U("any", 0), U("deep", 0, 1), U("ne", 0), U("dict", 0), U("free", 0)]


def unknown(t):
    return dict(t, ok=0)


def cases(tier):
    out = []
    quick = tier == "quick"
    ks = kinds() + [U("eg", 0, 1, g="G1"), U("rep", 0, g="G2"), U("dict", 0, g=415)]
    if not quick:
        ks += [dict(k, g=g) for k in kinds() for g in (415, "G1") if dict(k, g=g) not in ks]
    d, e = D(7), D(7, ok=0)
    for k in ks:
        u = unknown(k)
        con = k["u"] in ("rep", "eg", "any", "deep")
        hw = con or k["u"] in ("dict", "free")
        own = [AND(k, D(k["s"][0], g=k.get("g", DEF))), AND(D(k["s"][0], 8, g=k.get("g", DEF)), k)] if k["u"] in ("rep", "eg", "dict") else []
        sim = dict(u, sim=1)
        gd = dict(d, g=k["g"]) if "g" in k else d
        ge = dict(e, g=k["g"]) if "g" in k else e
        good = [k, AND(k, gd), AND(gd, k), OR(k, ge), OR(ge, k), OR(sim, gd), OR(gd, sim), OR(k, gd), AND(OR(k, ge), D(8, g=k.get("g", DEF))),
                OR(AND(k, gd), D(8, ok=0, g=k.get("g", DEF))), OR(AND(gd, k), D(8, ok=0, g=k.get("g", DEF)), op=1), OR(dict(k, sim=1), gd)] + own
        if hw:
            good += [OR(u, gd), OR(gd, u), AND(OR(u, gd), D(8, g=k.get("g", DEF)))]
        for t in good:
            out.append(case("nizk " + show(t), "nizk", tree=t, cost=3))
            out.append(case("flow " + show(t), "flow", tree=t, runner=len(out) % 3 == 0, cost=3, how="prove" if con and len(out) % 4 < 2 else "ctor"))
        pub = [u, AND(u, ge), OR(u, ge), OR(ge, u), AND(OR(u, ge), D(8, ok=0, g=k.get("g", DEF))), OR(AND(u, ge), D(8, ok=0, g=k.get("g", DEF)))]
        for t in pub:
            out.append(case("simulate " + show(t), "simulate", tree=t))
            out.append(case("given " + show(t), "simulate", tree=t, given=True))
            out.append(case("twice " + show(t), "twice", tree=t))
            out.append(case("distribution " + show(t), "distribution", tree=t))
            for z in (0, 1):
                out.append(case("sound%d %s" % (z, show(t)), "sound", tree=t, nizk=bool(z), cost=6))
        for t in good[:5]:
            out.append(case("shape " + show(t), "shapes_agree", tree=t, cost=2))
        out.append(case("with witness " + show(k), "simulate", tree=k, side="p"))
        if hw:
            for t in (u, AND(u, gd), AND(gd, u), OR(u, ge), OR(ge, u), OR(dict(k, sim=1), ge)):
                out.append(case("branch %s" % show(t), "branch", tree=t))
                out.append(case("branch flow %s" % show(t), "branch", tree=t, flow=True))
                if t is u or t["k"] == "or" and not any("sim" in x for x in t["c"]):
                    out.append(case("no witness " + show(t), "no_witness", tree=t))
            if k["u"] == "eg":
                t = AND(D(0), U("eg", 0, 1, ok=0))
                out.append(case("branch %s" % show(t), "branch", tree=t))
        if not con:
            for t in pub if k["u"] != "free" else []:
                pos = [int(x) for x in [kk for kk, l in keyed(t) if l["k"] == "U"][0].split(".")[1:]]
                for how in (["neutral"] if k["u"] == "ne" else ["neutral", "t", "z", "text"]):
                    for z in (0, 1):
                        out.append(case("refused %s %d %s" % (how, z, show(t)), "refused", tree=t, pos=pos, how=how, nizk=z, cost=3))
            for t in good[:5]:
                out.append(case("bound " + show(t), "bound", tree=t, cost=4))
        for t in [k, OR(k, ge)] if quick else good[:6]:
            for order in ("pp", "pvp", "psp", "ip", "pi", "vip", "w", "b"):
                if quick and k["u"] in ("any", "deep") and len(order) > 2 and t is not k:
                    continue
                out.append(case("history %s %s" % (order, show(t)), "history", tree=t, order=order, cost=4))
    for a in ("rep", "rep2", "eg", "any", "deep"):
        for b in ("rep", "rep2", "eg", "any", "deep"):
            if a != b:
                s = {"rep": [0], "rep2": [0], "any": [0]}
                out.append(case("other %s %s" % (a, b), "other", first=U(a, *s.get(a, [0, 1])), second=U(b, *s.get(b, [0, 1]), ok=0)))
    return out
