"""C18: proofs, messages and points survive serialization, also into another process."""
from .common import *
from .c01 import prim_kinds, prim_trees
from .trees import sign

BOUNDS = {"quick": "proofs of and/or trees of up to 3 leaves (twelve large ones) and of every primitive alone and composed; all values, coins and messages; adversarial "
          "proofs with arbitrary (also negative and over-long) numbers and points incl. the neutral one; nested values of depth 3; "
          "every group; interactive runs with all messages encoded; BBS+ issuance with all messages encoded",
          "thorough": "as quick with 4-leaf trees"}
ASSUMES = ["petlib.pack is executed from source, msgpack for real; the byte form of a point or number determines it (petlib / bplib export)"]


class Pipe:
    """What the codec of the installed library says, at this end of the wire."""

    def __init__(self, ctx):
        self.p = ctx.m("petlib.pack")
        ctx.m("zksk.pairings")

    def __call__(self, v):
        return self.p.decode(self.p.encode(v))


PUB = ("lhs", "bases", "p0", "p1", "com", "g", "h", "g0", "alt")


def ship_env(ctx, env):
    """The public part of all statements, sent to a new process."""
    enc = ctx.m("petlib.pack").encode
    raw, keys = {}, {}
    for key, p in env.pub.items():
        raw[key] = {n: enc(p[n]) for n in p if n in PUB}
        if "kp" in p:
            pk = p["kp"].pk
            keys[key] = [enc(pk.w), enc(pk.h0), enc(list(pk.generators))]
    return raw, keys, [enc(env.leaf(k, {})["q"]) for k in env.pub]


def receive_env(ctx, old, shipped):
    raw, keys, qs = shipped
    dec = ctx.m("petlib.pack").decode
    ctx.m("zksk.pairings")
    env = Env(ctx)
    for key, q in zip(raw, qs):
        env.pub[key] = {n: dec(b) for n, b in raw[key].items()}
        env.pub[key].update(q=dec(q), x=None, r=None, sig=None)
        if key in keys:
            w, h0, g = [dec(b) for b in keys[key]]

            class KP:
                pk = ctx.zk.BBSPlusPublicKey(w=w, h0=h0, generators=g)
            env.pub[key]["kp"] = KP
    return env


def fields(n):
    return {"challenge": n.challenge, "responses": n.responses, "precommitment": n.precommitment, "hash": n.stmt_hash}


def same_fields(ctx, a, b):
    a, b = fields(a), fields(b)
    return ctx.all([same_value(ctx, a[k], b[k]) for k in a])


def roundtrip(ctx, tree, remote):
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    m = ctx.text("m")
    n = st.prove(p.dict, message=m)
    raw = n.serialize()
    n2 = ctx.zk.NIZK.deserialize(raw)
    ctx.check(same_fields(ctx, n, n2), "no field of the proof changes")
    ctx.check(Side(env, "v").build(tree).verify(n2, message=m), "the deserialized proof is accepted")
    ctx.check(n2.serialize() == raw, "serializing again gives the same bytes")
    if remote:
        Side(env, "v").build(tree)
        wire = ship_env(ctx, env)
        ctx.new_process()
        env2 = receive_env(ctx, env, wire)
        n3 = ctx.zk.NIZK.deserialize(raw)
        ctx.check(Side(env2, "v").build(tree).verify(n3, message=m), "another process accepts the received proof")


def verdict(ctx, tree):
    """Serialization neither turns a bad proof into a good one nor a good one into a bad one."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    st = Side(env, "v").build(tree)
    st.get_verifier().process_precommitment(a.pre)
    n = ctx.zk.NIZK(ctx.int("c", -W, W), a.responses(), a.pre, st.prehash_statement().digest())
    if tree["k"] in "PRB":
        # the sign of each number doubles the number of paths: arbitrary signs only in smaller proofs
        for x in nums([n.responses, a.pre]):
            ctx.assume(x >= 0)
    n2 = ctx.zk.NIZK.deserialize(n.serialize())
    ctx.check(same_fields(ctx, n, n2), "no field of the proof changes")
    x = ctx.accepts(Side(env, "v").build(tree).verify, n)
    y = ctx.accepts(Side(env, "v").build(tree).verify, n2)
    ctx.check(x == y, "both forms get the same verdict")


GROUPS = [713, 415, 409, 716, "G1", "G2", "GT"]


def values(ctx, g, form):
    """Points and numbers come back equal, and work together with the ones of this process."""
    env = Env(ctx)
    pipe = Pipe(ctx)
    G = env.group(g)
    if isinstance(g, str):
        G.generator()
    x = ctx.int("n", -W, W)
    pt = env.point("P", g, inf=True)
    gen = G.generator()
    if form == "nested":
        v = {"a": [x, [pt, None, {"b": gen, "c": (x, b"raw", "text", 7, True)}]], "d": [], "e": G.infinite(), "f": {}}
    else:
        v = {"point": pt, "gen": gen, "inf": G.infinite(), "num": x, "none": None, "list": [pt, x, pt]}[form]
    w = pipe(v)
    ctx.check(same_value(ctx, v, w), "decoding gives back what was encoded")
    if form in ("point", "gen", "inf"):
        ctx.check(w.group == G, "the point belongs to an equal group")
        ctx.check(w.group.order() == G.order(), "... of the same order")
        s = w + pt
        ctx.check(s == v + pt, "sums with other points work")
        ctx.check(pt + w == v + pt, "sums with other points work")
        ctx.check(x * w == x * v, "multiples work")
        ctx.check(w.group.wsum([x, x], [pt, w]) == x * (pt + v), "weighted sums work")
        ctx.check(w.group.infinite() == G.infinite() if g != "GT" else True, "the neutral elements are equal")
        if g in ("G1", "G2"):
            o = ctx.bp_point("Q", env.group("G2" if g == "G1" else "G1"), inf=True)
            a, b = ((w, o), (v, o)) if g == "G1" else ((o, w), (o, v))
            ctx.check(a[0].pair(a[1]) == b[0].pair(b[1]), "pairings work")
            ctx.check((pipe(a[0])).pair(pipe(a[1])) == b[0].pair(b[1]), "pairings work with decoded points only")


def mixed(ctx, g, which, n):
    """A statement over decoded and local points."""
    env = Env(ctx)
    pipe = Pipe(ctx)
    t = D(*range(n), g=g)
    p = Side(env, "p")
    st = p.build(t)
    m = ctx.text("m")
    proof = st.prove(message=m)
    pub = env.pub["t"]
    env2 = Env(ctx)
    env2.pub["t"] = dict(pub)
    if which == "lhs":
        env2.pub["t"]["lhs"] = pipe(pub["lhs"])
    elif which == "all":
        env2.pub["t"].update(lhs=pipe(pub["lhs"]), bases=[pipe(b) for b in pub["bases"]])
    else:
        env2.pub["t"]["bases"] = [pipe(b) if i == which else b for i, b in enumerate(pub["bases"])]
    ctx.check(Side(env2, "v").build(t).verify(proof, message=m), "a verifier with decoded points accepts")
    env2.values = env.values
    st2 = Side(env2, "p").build(t)
    ctx.check(Side(env, "v").build(t).verify(st2.prove(message=m), message=m), "a prover with decoded points is accepted")
    a = AND(D(0, g=g), D(1, g=g))
    ea = Env(ctx)
    ea.pub["t.0"] = {"lhs": pipe(pub["lhs"]), "bases": [pub["bases"][0]], "q": pub["q"]}
    ea.pub["t.1"] = {"lhs": pub["lhs"], "bases": [pipe(pub["bases"][0])], "q": pub["q"]}
    ctx.check(ctx.attempt(lambda: Side(ea, "v").build(AND(D(0, g=g), D(0, g=g))).full_validate())[0] == "ok",
              "decoded and local points belong to the same group")


def interactive(ctx, tree):
    env = Env(ctx)
    pipe = Pipe(ctx)
    p = Side(env, "p")
    pr = p.build(tree).get_prover(p.dict)
    ve = Side(env, "v").build(tree).get_verifier()
    ve.process_precommitment(pipe(pr.precommit()))
    ch = ve.send_challenge(pipe(pr.commit()))
    ctx.check(ve.verify(pipe(pr.compute_response(pipe(ch)))), "a run with encoded messages is accepted")


def simulated(ctx, tree):
    env = Env(ctx)
    pipe = Pipe(ctx)
    tr = Side(env, "s").build(tree).simulate()
    zk = ctx.zk
    tr2 = zk.SimulationTranscript(*[pipe(getattr(tr, k)) for k in ("commitment", "challenge", "responses", "precommitment", "stmt_hash")])
    v = Side(env, "v").build(tree)
    ctx.check(v.verify_simulation_consistency(tr2), "a received simulated transcript is consistent")


def issuance(ctx, n, zkp):
    """Blind signature issuance and possession proof, every message received from the wire."""
    zk = ctx.zk
    pipe = Pipe(ctx)
    bp = zk.BilinearGroupPair()
    q = bp.G1.order()
    kp = zk.BBSPlusKeypair.generate(bp, n)
    pk = zk.BBSPlusPublicKey(w=pipe(kp.pk.w), h0=pipe(kp.pk.h0), generators=pipe(list(kp.pk.generators)))
    ms = [ctx.scalar("m", q) for _ in range(n)]
    creator = zk.BBSPlusSignatureCreator(pk)
    com = creator.commit(list(ms), zkp=zkp)
    if zkp:
        c2 = zk.UserCommitmentMessage(com_message=pipe(com.com_message), com_nizk_proof=zk.NIZK.deserialize(com.com_nizk_proof.serialize()))
        ctx.check(c2.verify_blinding(kp.pk), "the issuer accepts the received blinding proof")
    s = sign(ctx, kp, pipe(com.com_message), q)
    s = zk.BBSPlusSignature(*[pipe(getattr(s, k)) for k in ("A", "e", "s")]) if hasattr(s, "A") else s
    sig = creator.obtain_signature(s)
    ctx.assume(ne(ctx, sig.A))
    ctx.check(sig.verify_signature(pk, list(ms)), "the received signature verifies")
    sig2 = zk.BBSPlusSignature(A=pipe(sig.A), e=pipe(sig.e), s=pipe(sig.s))
    ctx.check(sig2.verify_signature(kp.pk, list(ms)), "the signature verifies after being stored")
    st = zk.BBSPlusSignatureStmt([zk.Secret(), zk.Secret()] + [zk.Secret(value=m) for m in ms], pk, sig2)
    proof = zk.NIZK.deserialize(st.prove().serialize())
    st2 = zk.BBSPlusSignatureStmt([zk.Secret(), zk.Secret()] + [zk.Secret() for m in ms], kp.pk)
    ctx.check(st2.verify(proof), "the possession proof is accepted")


def cases(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for t in tree_cases(top):
        out.append(case("proof " + show(t), "roundtrip", tree=t, remote=len(leaves(t)) < 3, cost=len(leaves(t))))
    for g in ("G1", "G2", "GT"):
        for t in (D(0, 1, g=g), AND(D(0, g=g), D(0, g=g)), OR(D(0, g=g), D(1, g=g, ok=0))):
            out.append(case("proof " + show(t), "roundtrip", tree=t, remote=True, cost=4))
            out.append(case("run " + show(t), "interactive", tree=t, cost=4))
            out.append(case("sim " + show(t), "simulated", tree=t, cost=4))
    for k in prim_kinds(tier):
        big = 6 + 10 * (k["k"] in "RPB")
        for t in [k, AND(k, D(5)), OR(D(5, ok=0), k)]:
            out.append(case("proof " + show(t), "roundtrip", tree=t, remote=True, cost=big))
            out.append(case("run " + show(t), "interactive", tree=t, cost=big))
            out.append(case("sim " + show(t), "simulated", tree=t, cost=big))
        out.append(case("verdict " + show(k), "verdict", tree=k, cost=big))
    for t in public_trees(2):
        out.append(case("verdict " + show(t), "verdict", tree=t, cost=3))
        out.append(case("run " + show(t), "interactive", tree=fill_known(t), cost=3))
        out.append(case("sim " + show(t), "simulated", tree=t, cost=3))
    for g in GROUPS:
        for form in ("point", "gen", "inf", "num", "none", "list", "nested"):
            out.append(case("values %s %s" % (g, form), "values", g=g, form=form, cost=2))
        for n in (1, 2, 3):
            for which in ["lhs", "all"] + list(range(n)):
                out.append(case("mixed %s %d %s" % (g, n, which), "mixed", g=g, which=which, n=n, cost=3))
    for n in (1, 2):
        for zkp in (False, True):
            out.append(case("issuance %d zkp%d" % (n, zkp), "issuance", n=n, zkp=zkp, cost=20))
    for name, t in big_trees().items():
        out.append(case("proof large " + name, "roundtrip", tree=t, remote=True, cost=8))
        out.append(case("run large " + name, "interactive", tree=t, cost=8))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        out.append(case("proof curve " + show(t), "roundtrip", tree=t, remote=True, cost=cost))
        out.append(case("run curve " + show(t), "interactive", tree=t, cost=cost))
    return out


def fill_known(t):
    if "c" in t:
        return dict(t, c=[fill_known(c) for c in t["c"]])
    return dict(t, ok=1)
