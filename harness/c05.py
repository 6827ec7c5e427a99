"""C05: non-interactive proofs are bound to statement, message, commitment and precommitment."""
from .common import *

BOUNDS = ("statement trees of up to 3 leaves, twelve large ones (up to 10 parts or terms, 6 levels) and every primitive; any adversarial proof of the documented shape, any message "
          "pair, any second proof with the same challenge; honest proofs with any one component replaced by any other value")


def message(ctx, tree):
    """One proof accepted for two messages: the messages are equal."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    c, r = ctx.int("c", 0, (1 << 256) - 1), a.responses()
    st, v = a.verifier()
    n = ctx.zk.NIZK(c, r, a.pre, st.prehash_statement().digest())
    m1, m2 = ctx.text("m"), ctx.text("n")
    ok1 = ctx.accepts(Side(env, "v").build(tree).verify, n, m1)
    ok2 = ctx.accepts(Side(env, "v").build(tree).verify, n, m2)
    okn = ctx.accepts(Side(env, "v").build(tree).verify, n)
    ctx.check(not (ok1 and okn), "a proof over a message is not a proof without message")
    if ok1 and ok2:
        ctx.check(ctx.same_text(m1, m2), "one proof is accepted for one message only")


TEXTS = ["", " ", "a", "A", "a ", " a", "a\n", "a\0", "\0", "aa", "ab", "ba", "\u00e9", "e\u0301", "0", "00", "None", "a" * 5000, "a" * 5001,
         "\u0430", "b'a'"]


def texts(ctx, tree, m1):
    """Messages that look alike are different messages; no message is the empty message."""
    env = Env(ctx)
    n = Side(env, "p").build(tree).prove(message=m1)
    v = Side(env, "v").build(tree)
    for m2 in TEXTS:
        ok = ctx.accepts(v.verify, n, m2) if m2 else ctx.accepts(v.verify, n)
        if m1 == m2:
            ctx.check(ok, "the proof is accepted with its message")
        else:
            ctx.check(not ok, "the proof is not accepted with another message")


def second(ctx, tree):
    """Two accepted proofs with the same challenge agree on precommitment and commitment."""
    env = Env(ctx)
    a = Adversary(ctx, env, tree)
    c = ctx.int("c", 0, (1 << 256) - 1)
    m = ctx.text("m")
    pre2 = fresh(ctx, a.pre, "pre2")
    r1, r2 = a.responses("r"), a.responses("s")
    coms = []
    for pre, r in ((a.pre, r1), (pre2, r2)):
        st = Side(env, "v").build(tree)
        v = st.get_verifier()
        v.process_precommitment(pre)
        n = ctx.zk.NIZK(c, r, pre, st.prehash_statement().digest())
        st = Side(env, "v").build(tree)
        if not ctx.accepts(st.verify, n, m):
            ctx.check(True, "rejected")
            raise Skip()
        coms.append(st.recompute_commitment(c, r))
    ctx.check(same_value(ctx, a.pre, pre2), "the challenge determines the precommitment")
    ctx.check(same_value(ctx, coms[0], coms[1]), "the challenge determines the commitment")


def transplant(ctx, tree, other):
    """A proof for one statement and a proof for another with the same challenge: same statement."""
    ea, eb = Env(ctx), Env(ctx)
    a, b = Adversary(ctx, ea, tree), Adversary(ctx, eb, other)
    c = ctx.int("c", 0, (1 << 256) - 1)
    m = ctx.text("m")
    for e, t, ad in ((ea, tree, a), (eb, other, b)):
        st = Side(e, "v").build(t)
        v = st.get_verifier()
        v.process_precommitment(ad.pre)
        n = ctx.zk.NIZK(c, ad.responses(), ad.pre, st.prehash_statement().digest())
        if not ctx.accepts(Side(e, "v").build(t).verify, n, m):
            ctx.check(True, "rejected")
            raise Skip()
    ctx.check(same_public(ctx, ea, tree, eb, other), "one challenge serves one statement only")


def honest(ctx, tree):
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    m = ctx.text("m")
    return env, st.prove(message=m), m


def tamper(ctx, tree, what):
    """Replace one component of an honest proof by any other value."""
    env, n, m = honest(ctx, tree)
    v = Side(env, "v").build(tree)
    ch, rs, pre, h, m2 = n.challenge, n.responses, n.precommitment, n.stmt_hash, m
    if what == "challenge":
        ch = ctx.int("c'", -(1 << 300), 1 << 300)
        ctx.assume(ch != n.challenge)
        ctx.guess(ch)
    elif what == "message":
        m2 = ctx.text("m'")
        ctx.assume(~ctx.same_text(m, m2) if ctx.sym else m != m2)
    elif what == "no message":
        m2 = None
    elif what == "hash":
        n0 = len(h)
        h = ctx.choose("h", [lambda i=i: bytes(h[:i]) + bytes([h[i] ^ (1 << i % 8)]) + bytes(h[i + 1:]) for i in (0, 1, n0 // 2 - 1, n0 // 2, n0 - 1)] + [
            lambda: h + b"?", lambda: h + b"\0", lambda: h + h, lambda: b"\0" + h, lambda: h[:-1], lambda: h[:n0 // 2], lambda: h[1:], lambda: h[::-1],
            lambda: b"", lambda: bytes(n0), lambda: h.hex(), lambda: [h], lambda: h[:1]])()
    elif what == "no hash":
        h = None
    elif what == "response":
        path = ctx.choose("where", positions(rs))
        old = at(rs, path)
        new = ctx.int("r'", -W, W)
        # responses count modulo the group order, sub-challenges modulo nothing
        ctx.assume(distinct_response(ctx, env, tree, path, old, new))
        rs = replace_at(rs, path, new)
    elif what == "responses":
        # all responses of the proof at once
        rs = fresh(ctx, rs, "r'")
        com1 = st_commitment(ctx, env, tree, n, n.challenge, n.responses)
        k, com2 = ctx.attempt(st_commitment, ctx, env, tree, n, n.challenge, rs)
        if k != "ok":
            ctx.check(not ctx.accepts(v.verify, ctx.zk.NIZK(ch, rs, pre, h), m2), "malformed responses are rejected")
            raise Skip()
        same = same_value(ctx, com1, com2)
        ctx.assume(~same if ctx.sym else not same)
    elif what == "precommitment":
        ps = positions(pre)
        path = ctx.choose("where", ps)
        old = at(pre, path)
        new = fresh(ctx, old, "pre'")
        ctx.assume(new != old)
        pre = replace_at(pre, path, new)
    elif what == "kind of precommitment":
        # another kind of value, among them everything that is hashed in the same way
        enc = ctx.m("petlib.pack").encode
        alt = [None, [], {}, "", b"", 0, False, [None], [[]], (), [None, None], b"\xc0", b"\x90", enc(pre)]
        if isinstance(pre, (list, tuple)):
            # (lists and tuples are the same once serialized)
            alt += [[pre], list(pre) + [None]] + [x for x in pre]
        else:
            alt += [[pre], {"a": pre}]
        pre = ctx.choose("other", [x for x in alt if shape(x) != shape(pre)])
    n2 = ctx.zk.NIZK(ch, rs, pre, h)
    ok = ctx.accepts(v.verify, n2, m2) if m2 is not None else ctx.accepts(v.verify, n2)
    ctx.check(not ok, "an altered proof is rejected: " + what)


def st_commitment(ctx, env, tree, n, c, r):
    st = Side(env, "v").build(tree)
    st.get_verifier().process_precommitment(n.precommitment)
    return st.recompute_commitment(c, r)


def distinct_response(ctx, env, tree, path, old, new):
    q = env.leaf(*first(tree))["q"]
    if is_subchallenge(tree, path):
        return new != old
    d = (new - old) % q
    return d != 0


def first(t, key="t"):
    return first(t["c"][0], key + ".0") if "c" in t else (key, t)


def cases(tier):
    out = []
    pub = public_trees(3 if tier != "quick" else 2)
    if tier == "quick":
        pub += [fill(sh, [D(i, ok=0) for i in range(3)]) for sh in shapes(3)]
    prims = [N(0, ok=0), N(0, bind=1, ok=0), P(1, ok=0), P(2, ok=0), X(0, pre="point", ok=0), X(0, pre="list", inner="and", ok=0),
             X(0, pre="none", ok=0), X(0, pre="empty", ok=0, inner="or"), B(0, ok=0), R(2, 4, ok=0)]
    comp = [AND(N(0, ok=0), D(1, ok=0)), OR(N(0, ok=0), D(1, ok=0)), OR(X(0, pre="point", ok=0), X(1, pre="point", ok=0))]
    extra = [D(0, 1, ok=0), D(0, 0, ok=0), D(0, ok=0, g="G1"), D(0, ok=0, g="GT"), D(0, ok=0, g=415)]
    for t in pub + extra + prims + comp:
        c = 8 if t["k"] in "BR" else 1
        out.append(case("message " + show(t), "message", tree=t, cost=c))
        if tier != "quick" or t["k"] != "R" and t.get("n") != 2:
            out.append(case("second " + show(t), "second", tree=t, cost=c))
    pool = [D(0, ok=0), D(0, 1, ok=0), D(0, 0, ok=0), D(0, ok=0, g=415), D(0, ok=0, g="G1"),
            AND(D(0, ok=0), D(1, ok=0)), AND(D(0, ok=0), D(0, ok=0)), OR(D(0, ok=0), D(1, ok=0)), OR(D(0, ok=0), D(0, ok=0)),
            AND(D(0, ok=0), D(1, ok=0), D(2, ok=0)), AND(D(0, ok=0), AND(D(1, ok=0), D(2, ok=0))),
            AND(D(0, ok=0), OR(D(1, ok=0), D(2, ok=0))), OR(D(0, ok=0), AND(D(1, ok=0), D(2, ok=0))),
            OR(D(0, ok=0), D(1, ok=0), D(2, ok=0)), N(0, ok=0), N(0, bind=1, ok=0), P(1, ok=0), P(2, ok=0), B(0, ok=0), B(0, 1, ok=0),
            X(0, pre="point", ok=0), X(0, pre="point", inner="and", ok=0), X(0, pre="empty", inner="and", ok=0)]
    for a in range(len(pool)):
        for b in range(a, len(pool)):
            t, o = pool[a], pool[b]
            if tier == "quick" and t.get("n") == 2 and o.get("n") == 2:
                continue
            if a != b and len(leaves(t)) != len(leaves(o)) and (a + b) % 3 and tier == "quick":
                continue
            out.append(case("transplant %s to %s" % (show(t), show(o)), "transplant", tree=t, other=o,
                            cost=6 if "B" in (t["k"], o["k"]) else 1))
    for t in [D(0), D(0, 1), D(0, g="GT"), AND(D(0), D(1)), AND(D(0), D(0, 1)), OR(D(0), D(1, ok=0)), AND(D(0), OR(D(1), D(2, ok=0))),
              OR(AND(D(0), D(1)), D(2, ok=0)), N(0), N(0, bind=1), P(1), P(2), B(0), X(0, pre="point"), X(0, pre="list", inner="or"),
              OR(N(0, ok=0), D(1)), OR(N(0), D(1, ok=0))]:
        for w in ("challenge", "message", "no message", "hash", "no hash", "response", "responses", "precommitment", "kind of precommitment"):
            if w == "precommitment" and not any(l["k"] in "NPBX" for l in leaves(t)):
                continue
            out.append(case("tamper %s %s" % (w, show(t)), "tamper", tree=t, what=w, cost=5 if t["k"] in "BPN" else 1))
    for t in (D(0), AND(D(0), D(1)), X(0, pre="none"), N(0)):
        for m in TEXTS if t["k"] == "D" else TEXTS[:4]:
            out.append(case("texts %r %s" % (m[:8] + str(len(m)), show(t)), "texts", tree=t, m1=m))
    for name, t in big_trees().items():
        t = unknown(t)
        out.append(case("message large " + name, "message", tree=t, cost=8))
        out.append(case("second large " + name, "second", tree=t, cost=8))
        for w in ("response", "responses"):
            out.append(case("tamper %s large %s" % (w, name), "tamper", tree=big_trees(6, 4)[name], what=w, cost=8))
    return out
