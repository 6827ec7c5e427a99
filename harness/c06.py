"""C06: both sides agree on a statement identifier exactly when their statements are the same."""
from .common import *

BOUNDS = ("pairs out of a pool of statements with up to 4 leaves (twelve large ones with their neighbours, and 40 to 264 secrets) covering every primitive, both compositions and groups with "
          "equal and different orders; all public points and precommitments; eight schemes of secret names, any values and simulation flags")


def received(ctx, env, tree, ad):
    """A verifier's statement after the precommitment arrived; paths on which the precommitment is
    not even valid for the statement are left out."""
    st = Side(env, "v").build(tree)
    v = st.get_verifier()
    v.process_precommitment(ad.pre)
    k, e = ctx.attempt(st.full_validate)
    if k != "ok":
        ctx.check(True, "invalid precommitment")
        raise Skip()
    return st, v


def pair(ctx, tree, other):
    """The challenge is only sent when the announced statement is the verifier's own."""
    ea, eb = Env(ctx), Env(ctx)
    a, b = Adversary(ctx, ea, tree), Adversary(ctx, eb, other)
    sa, _ = received(ctx, ea, tree, a)
    sb, vb = received(ctx, eb, other, b)
    h = sa.prehash_statement().digest()
    k, r = ctx.attempt(vb.send_challenge, (h, b.com))
    same = same_public(ctx, ea, tree, eb, other)
    if k == "ok":
        ctx.check(same, "a challenge is sent only for the verifier's own statement")
        ctx.check(same_value(ctx, a.pre, b.pre), "a challenge is sent only for the received precommitment")
    elif ctx.all([same, same_value(ctx, a.pre, b.pre)]):
        ctx.fail("the same statement is not refused")
    else:
        ctx.check(True, "refused")


def many(ctx, shape, n, others):
    """Identifiers of a statement over n different secrets and of those where the last secret is an earlier one."""
    env = Env(ctx)

    def ident(ids):
        parts = [D(i, y=k, ok=0) if shape != "rep" else i for k, i in enumerate(ids)]
        tree = D(*parts, ok=0) if shape == "rep" else {"k": shape, "c": parts}
        return Side(env, "v").build(tree).prehash_statement().digest()
    ids = list(range(n))
    first = ident(ids)
    ctx.check(ident(ids) == first, "identifiers are deterministic")
    for k in others:
        ctx.check(ident(ids[:-1] + [k]) != first, "statements that share secrets differently have different identifiers")


ODD = ["x", "X", "x ", "\u00e9", "e\u0301", "a, b", "None", "x" * 300, "0", "00", "\0", "(1)", "'", "[]"]
NAMES = [lambda i: "n%s" % i, lambda i: "z%s" % (9 - i), lambda i: str(10 - i), lambda i: ODD[i % len(ODD)] + str(i // len(ODD) or ""),
         lambda i: "a" * (i + 1), lambda i: "%d" % i, lambda i: "s%d" % (i * 7919 % 101), lambda i: ODD[-1 - i % len(ODD)] + str(i // len(ODD) or "")]


def reuse(ctx, tree, flags=False, ops=False, names=(0, 1)):
    """Prover and verifier build the same statement in different processes, with different secret
    names, values and simulation flags: the identifiers are equal and proofs verify."""
    env = Env(ctx)
    how = ctx.choose("how", ["ctor", "prove"])
    ps = Side(env, "p", how, names=NAMES[names[0]])
    pt = dict(tree, op=1) if ops else tree
    st = ps.build(pt)
    m = ctx.text("m")
    n = st.prove(ps.dict, message=m)
    com = None
    h = st.prehash_statement().digest()
    vs = Side(env, "v", names=NAMES[names[1]]).build(tree)
    vs.get_verifier().process_precommitment(n.precommitment)
    h2 = vs.prehash_statement().digest()
    ctx.check(h == h2, "identifiers do not depend on names, values and flags")
    ctx.check(h == n.stmt_hash, "the proof carries the identifier")
    unnamed = Side(env, "v").build(tree)
    unnamed.get_verifier().process_precommitment(n.precommitment)
    ctx.check(unnamed.prehash_statement().digest() == h, "identifiers do not depend on names")
    ctx.check(Side(env, "v").build(tree).verify(n, message=m), "the proof is accepted by a separately built statement")


def moved(ctx, tree):
    """The identifier is the same in another process, where points arrive in serialized form."""
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    m = ctx.text("m")
    raw = st.prove(message=m).serialize()
    pk = ctx.m("petlib.pack")
    enc = [pk.encode(p) for p in env.leaf("t", tree)["bases"]] + [pk.encode(env.leaf("t", tree)["lhs"])]
    ctx.new_process()
    ctx.zk.NIZK, ctx.zk.G1Point
    pk = ctx.m("petlib.pack")
    pts = [pk.decode(e) for e in enc]
    zk = ctx.zk
    secrets = {}
    for i in tree["s"]:
        secrets.setdefault(i, zk.Secret())
    e = None
    for i, b in zip(tree["s"], pts):
        t = secrets[i] * b
        e = t if e is None else e + t
    n = zk.NIZK.deserialize(raw)
    st2 = zk.DLRep(pts[-1], e)
    ctx.check(st2.prehash_statement().digest() == n.stmt_hash, "the identifier is the same in another process")
    ctx.check(st2.verify(n, message=m), "the proof is accepted in another process")


def interactive_other(ctx, tree, other):
    """An honest prover of one statement never gets a challenge from the verifier of another."""
    ea, eb = Env(ctx), Env(ctx)
    prover = Side(ea, "p").build(tree).get_prover()
    v = Side(eb, "v").build(other).get_verifier()
    pre = prover.precommit()
    k, e = ctx.attempt(v.process_precommitment, pre)
    if k == "ok" and has_p(other):
        # a commitment to be opened is tied to the statement by the precommitment's validity
        k, e = ctx.attempt(v.stmt.full_validate)
    if k != "ok":
        ctx.check(True, "refused")
        raise Skip()
    k, e = ctx.attempt(v.send_challenge, prover.commit())
    if k != "ok":
        ctx.check(True, "refused")
        raise Skip()
    ctx.check(same_public(ctx, ea, tree, eb, other), "a challenge is sent only for the verifier's own statement")


def simulated_other(ctx, tree, other):
    """A simulated transcript of one statement is not consistent with another."""
    ea, eb = Env(ctx), Env(ctx)
    tr = Side(ea, "p").build(tree).simulate()
    k, ok = ctx.attempt(Side(eb, "v").build(other).verify_simulation_consistency, tr)
    if k != "ok" or not ok:
        ctx.check(True, "refused")
        raise Skip()
    ctx.check(same_public(ctx, ea, tree, eb, other), "a transcript is consistent with its own statement only")


def simulated_hash(ctx, tree):
    """The identifier that a transcript carries is judged, whatever its other parts are."""
    env = Env(ctx)
    tr = Side(env, "p").build(tree).simulate()
    real = tr.stmt_hash
    for name, h in (("none", None), ("empty", b""), ("cut", real[:-1]), ("long", real + b"0"), ("last", real[:-1] + bytes([real[-1] ^ 1])),
                    ("first", bytes([real[0] ^ 1]) + real[1:]), ("text", real.hex())):
        tr.stmt_hash = h
        ok = ctx.accepts(Side(env, "v").build(tree).verify_simulation_consistency, tr)
        ctx.check(not ok, "a transcript with another identifier is not consistent: " + name)
    tr.stmt_hash = real
    ctx.check(ctx.accepts(Side(env, "v").build(tree).verify_simulation_consistency, tr), "the transcript is consistent with its statement")


def has_p(t):
    return any(l["k"] in "PR" for l in leaves(t))


def d(*s, **o):
    return D(*s, ok=0, **o)


POOL = [d(0), d(0, 1), d(0, 0), d(0, 1, 0), d(0, 0, 1), d(0, g=415), d(0, g="G1"), d(0, g="G2"), d(0, g="GT"),
        AND(d(0), d(1)), AND(d(0), d(0)), AND(d(0, 1), d(1, 0)), AND(d(0, 1), d(0, 1)), OR(d(0), d(1)), OR(d(0), d(0)),
        AND(d(0), d(1), d(2)), AND(d(0), AND(d(1), d(2))), AND(AND(d(0), d(1)), d(2)), AND(d(0), OR(d(1), d(2))),
        AND(OR(d(0), d(1)), d(2)), OR(d(0), AND(d(1), d(2))), OR(d(0), d(1), d(2)), OR(d(0), OR(d(1), d(2))),
        AND(d(0), d(1), d(0)), AND(d(0), d(1), d(1)), AND(d(0), d(0), d(1)), OR(AND(d(0), d(0)), d(1)),
        N(0, ok=0), N(0, bind=1, ok=0), P(1, ok=0), P(2, ok=0), R(2, 4, ok=0), R(3, 5, ok=0), B(0, ok=0), B(0, 1, ok=0), B(0, 0, ok=0),
        X(0, pre="point", ok=0), X(0, pre="none", ok=0), X(0, pre="empty", ok=0), X(0, pre="point", inner="and", ok=0),
        X(0, pre="point", inner="or", ok=0), AND(N(0, ok=0), d(1)), OR(N(0, ok=0), d(1)), AND(N(0, ok=0, bind=1), d(0)),
        AND(N(0, ok=0, bind=1), d(1)),
        U("rep", 0, ok=0), U("rep2", 0, ok=0), U("any", 0, ok=0), U("eg", 0, 1, ok=0), U("ne", 0, ok=0),
        OR(U("rep", 0, ok=0), d(1)), OR(U("rep2", 0, ok=0), d(1)), AND(d(1), U("rep", 0, ok=0)), AND(d(1), U("rep2", 0, ok=0))]


def neighbours(t):
    """Statements that differ from t in one place far back."""
    out = []
    if "c" in t:
        out = [dict(t, c=t["c"][:-1]), dict(t, c=t["c"] + [D(0, ok=0)]), dict(t, c=list(reversed(t["c"]))),
               dict(t, k="or" if t["k"] == "and" else "and")]
        out += [dict(t, c=t["c"][:-1] + [x]) for x in neighbours(t["c"][-1])]
        out += [dict(t, c=[x] + t["c"][1:]) for x in neighbours(t["c"][0]) if "c" in t["c"][0]]
    else:
        s = t["s"]
        out = [dict(t, s=s[:-1]), dict(t, s=s + [98]), dict(t, s=s[:-1] + [97]), dict(t, s=s[:-1] + [s[0]])]
    return [x for x in out if x != t and (x.get("s") or len(x.get("c", ())) > 1)]


def cases(tier):
    out = []
    heavy = {"P": 2, "R": 8, "B": 4}

    def w(t):
        return max(heavy.get(l["k"], 1) for l in leaves(t))
    for i, a in enumerate(POOL):
        for j, b in enumerate(POOL):
            if j < i:
                continue
            if tier == "quick" and i != j:
                if w(a) + w(b) > 6 and a["k"] != b["k"]:
                    continue
                if len(leaves(a)) != len(leaves(b)) and (i + j) % 4:
                    continue
            out.append(case("pair %s / %s" % (show(a), show(b)), "pair", tree=a, other=b, cost=w(a) + w(b)))
    for t in [D(0), D(0, 1), D(0, 0), AND(D(0), D(0, 1)), AND(D(0), D(1), D(0)), AND(D(0), AND(D(1), D(0))), OR(D(0), D(1)), OR(D(0), D(1, ok=0)),
              OR(D(0), D(0)), AND(D(0), OR(D(1), D(2, ok=0))), OR(AND(D(0), D(1)), D(2, ok=0)), N(0), N(0, bind=1), AND(N(0, bind=1), D(0, 1)),
              P(1), P(2), B(0), B(0, 1), X(0, pre="point"), X(0, pre="list", inner="and"), OR(N(0, ok=0), D(1)), OR(N(0), D(1, ok=0)),
              OR(D(0, ok=0), D(1, sim=1), D(2))]:
        out.append(case("reuse " + show(t), "reuse", tree=t, cost=3 * w(t)))
        if "c" in t and not any("c" in c and c["k"] == t["k"] for c in t["c"]):
            out.append(case("reuse op " + show(t), "reuse", tree=t, ops=True))
    for n, t in enumerate([D(0, 1, 2), AND(D(0, 1), D(1, 2), D(2, 0)), OR(D(0, 1), D(2, 3)), N(0, bind=1), P(1), B(0, 1), AND(D(0), U("eg", 0, 1))]
                          + list(big_trees().values())):
        for a, b in ((2, 3), (3, 7), (4, 5), (6, 0)):
            if n < 7 or (n + a) % 4 == 0:
                out.append(case("reuse names %d %d %s" % (a, b, show(t)), "reuse", tree=t, names=[a, b], cost=5))
    for g in (713, 415, "G1", "G2", "GT"):
        for t in (D(0, g=g), D(0, 1, g=g), D(0, 0, g=g)):
            out.append(case("moved " + show(t), "moved", tree=t))
    hp = [D(0), D(0, 1), D(0, 0), AND(D(0), D(1)), AND(D(0), D(0)), OR(D(0), D(1, ok=0)), AND(D(0), OR(D(1), D(2, ok=0))), N(0), N(0, bind=1), P(2),
          X(0, pre="point"), B(0), U("rep", 0), U("rep2", 0), AND(D(1), U("rep", 0)), OR(U("rep2", 0), D(1, ok=0))]
    pub = [d(0), d(0, 1), d(0, 0), AND(d(0), d(1)), AND(d(0), d(0)), OR(d(0), d(1)), AND(d(0), OR(d(1), d(2))), N(0, ok=0), N(0, bind=1, ok=0), P(2, ok=0),
           X(0, pre="point", ok=0), B(0, ok=0), U("rep", 0, ok=0), U("rep2", 0, ok=0), AND(d(1), U("rep2", 0, ok=0)),
           OR(U("rep", 0, ok=0), d(1))]
    for a in hp:
        for b in pub:
            out.append(case("honest %s / %s" % (show(a), show(b)), "interactive_other", tree=a, other=b, cost=w(a) + w(b)))
            out.append(case("simulated %s / %s" % (show(a), show(b)), "simulated_other", tree=a, other=b, cost=w(a) + w(b)))
    for a in pub:
        out.append(case("simulated hash " + show(a), "simulated_hash", tree=a))
    big = {k: unknown(t) for k, t in big_trees().items()}
    for shape in ("rep", "and", "or"):
        out.append(case("many 40 " + shape, "many", shape=shape, n=40, others=list(range(0, 39)), cost=20))
    out.append(case("many 140 rep", "many", shape="rep", n=140, others=[0, 11, 39, 75, 138], cost=20))
    out.append(case("many 264 and", "many", shape="and", n=264, others=[0, 7, 8, 63, 262], cost=20))
    for name, a in big.items():
        for b in [a] + neighbours(a):
            out.append(case("pair large %s / %s" % (name, show(b)), "pair", tree=a, other=b, cost=8))
    return out
