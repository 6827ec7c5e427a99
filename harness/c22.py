"""C22: challenges are uniform, fresh and full-width; derived generators are reproducible and unrelated."""
from .common import *

BOUNDS = {"quick": "verifiers of every statement kind alone and in and/or trees of up to 3 leaves (and twelve large ones), any commitment, up to two sessions of one "
          "verifier object; bit lengths 1-512; non-interactive proofs of the same statements under two oracle answers; sums of up to 6 and 16 "
          "arbitrary integers modulo a group order, 2^128, 2027 and 1; seeds out of a fixed pool (formatting an integer as text is not "
          "encoded symbolically), up to 24 generators, groups 713, 415, G1",
          "thorough": "as quick with trees of 4 leaves, three sessions, sums of 8 terms"}


def uniform(ctx, fn, bits, label):
    """fn() returns numbers that are, together, uniform: each in [0, 2^bits), the coins drawn number
    exactly 2^(bits*n) and different coins give different results."""
    out = []
    for _ in range(2):
        n0 = ctx.ndraws()
        r = fn()
        d = ctx.draws()[n0:]
        total = 1
        for n, _ in d:
            total *= int(n)
        ctx.check(total == 1 << (bits * len(r)), label + ": the coins number as many as the results")
        for x in r:
            ctx.check(ctx.all([x >= 0, x < ctx.const(1 << bits)]), label + ": in range")
        out.append((r, [v for _, v in d]))
    (r1, d1), (r2, d2) = out
    same_r, same_d = same_value(ctx, r1, r2), same_value(ctx, d1, d2)
    ctx.check(ctx.any([negate(ctx, same_r), same_d]), label + ": different coins give different results")


def negate(ctx, c):
    return not c if isinstance(c, bool) else ~c


def rnum(ctx, bits, big):
    uniform(ctx, lambda: [ctx.zk.get_random_num(ctx.const(bits) if big else bits)], bits, "random numbers")


def challenge(ctx, tree, sessions):
    """A verifier's challenges are uniform and independent of everything the prover sent, in every session."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    st = Side(env, "v").build(tree)
    v = st.get_verifier()
    v.process_precommitment(a.pre)
    h = st.prehash_statement().digest()

    def go():
        return [v.send_challenge((h, a.com)) for _ in range(sessions)]
    uniform(ctx, go, 128, "challenges")


def used(ctx, tree):
    """The challenge a verifier judges with is the one it sent: an honest answer to another one is refused."""
    env = Env(ctx)
    st, w = Side(env, "p").build(tree), Side(env, "v").build(tree)
    p, v = st.get_prover(), w.get_verifier()
    v.process_precommitment(p.precommit())
    c = v.send_challenge(p.commit())
    o = ctx.int("o", 0, (1 << 128) - 1)
    ctx.assume(o != c)
    for k, l in keyed(tree):
        ctx.assume(negate(ctx, mod0(o - c, env.leaf(k, l)["q"])))
    k, r = ctx.attempt(p.compute_response, o)
    if k == "ok":
        hit = ctx.accepts(v.verify, r)
        for k, l in keyed(tree):
            for x in trivial(env, k, l):
                ctx.assume(negate(ctx, x))
        ctx.check(not hit, "an answer to another challenge is refused")


def trivial(env, key, l):
    """Statements whose answers do not depend on the challenge (all secrets zero)."""
    p = env.leaf(key, l)
    if l["k"] == "D":
        return [zero(p["lhs"])]
    return []


def whole_hash(ctx, tree):
    """The challenge of a non-interactive proof is one whole answer of the oracle."""
    env = Env(ctx)
    n = Side(env, "p").build(tree).prove()
    ds = ctx.digests()
    if ds is not None:
        ctx.check(ctx.any([n.challenge == d for d in ds]), "the challenge is a whole hash")
    ctx.check(ctx.all([n.challenge >= 0, n.challenge < ctx.const(1 << 256)]), "256 bits")


SEEDS = (None, 42, 0, 1, 41, 43, -3, 2 ** 70)


def gens(ctx, num, grp, seed, bits):
    """Reproducible, independent of how many are asked for, pairwise different, not neutral, in the right group."""
    env = Env(ctx)
    ctx.distinct_points()
    mk = ctx.zk.make_generators
    kw = {} if grp is None else {"group": env.group(grp)}
    if bits is not None:
        kw["random_bits"] = bits
    if seed != "default":
        kw["seed"] = seed
    G = env.group(DEF if grp is None else grp)
    t0 = len(ctx.tokens)
    gs = mk(num, **kw)
    ctx.check(len(gs) == num, "as many as asked for")
    for i, g in enumerate(gs):
        ctx.check(type(g) is type(G.generator()) and g.group == G, "in the group asked for")
        ctx.check(ne(ctx, g), "not neutral")
        for h in gs[:i] + [G.generator()]:
            ctx.check(negate(ctx, g == h), "pairwise different")
    if seed is None:
        ctx.check(sum(ctx.tokens[t0:]) * 8 >= (bits or 256) * num, "fresh randomness for each")
        for g in mk(num, **kw):
            for h in gs:
                ctx.check(negate(ctx, g == h), "fresh generators each time")
        return
    ctx.check(len(ctx.tokens) == t0 and ctx.ndraws() == 0, "nothing random about seeded generators")
    for m in (num, num + 1, num - 1):
        hs = mk(m, **kw)
        ctx.check(ctx.all([g == h for g, h in zip(gs, hs)]), "reproducible and independent of their number")
    if seed == "default":
        ctx.check(ctx.all([g == h for g, h in zip(gs, mk(num, seed=42, **kw))]), "the default seed is 42")
    for other in SEEDS:
        if other is not None and other != seed and (seed == "default" or abs(other - seed) > num) and not (seed == "default" and abs(other - 42) <= num):
            for g in gs:
                for h in mk(num, **dict(kw, seed=other)):
                    ctx.check(negate(ctx, g == h), "other seeds, other generators")
    ctx.new_process()
    env2 = Env(ctx)
    kw2 = dict(kw, group=env2.group(grp)) if grp is not None else kw
    hs = ctx.zk.make_generators(num, **kw2)
    ctx.check(ctx.all([ctx.same_bytes(getattr(g, "pt", g).export(), getattr(h, "pt", h).export()) for g, h in zip(gs, hs)])
              if grp == "G1" else ctx.all([ctx.same_bytes(g.export(), h.export()) for g, h in zip(gs, hs)]), "the same in every process")


def point(ctx, grp, seed):
    env = Env(ctx)
    ctx.distinct_points()
    f = ctx.zk.get_random_point
    kw = {} if grp is None else {"group": env.group(grp)}
    G = env.group(DEF if grp is None else grp)
    t0 = len(ctx.tokens)
    p = f(seed=seed, **kw)
    ctx.check(type(p) is type(G.generator()) and p.group == G, "in the group asked for")
    ctx.check(ne(ctx, p), "not neutral")
    q = f(seed=seed, **kw)
    if seed is None:
        ctx.check(negate(ctx, p == q), "fresh points differ")
        ctx.check(sum(ctx.tokens[t0:]) >= 64, "fresh randomness for each")
    else:
        ctx.check(p == q, "reproducible")
        ctx.check(p == ctx.zk.make_generators(3, seed=seed, **kw)[0], "the first generator for a seed is its point")


def total(ctx, kinds, mod):
    """sum_bn_array adds modulo the modulus, whatever it is given, and leaves its argument alone."""
    M = ctx.const({"q": int(ctx.group(DEF).order()), "c": 1 << 128}.get(mod, mod))
    m = mod if isinstance(mod, int) else M
    arr, want = [], ctx.const(0)
    for k in kinds:
        x = {"s": lambda: ctx.int("x", -W, W), "i": lambda: 31415, "n": lambda: -7}[k]()
        arr.append(x)
        want = want + (ctx.const(x) if k in "in" else x)
    before = list(arr)
    r = ctx.zk.sum_bn_array(arr, m)
    ctx.check(is_num(r), "a big number")
    ctx.check(ctx.all([r >= 0, r < M, (r - want) % M == 0]), "the sum modulo the modulus")
    ctx.check(len(arr) == len(before) and all(a is b for a, b in zip(arr, before)), "the argument is left alone")


def ensure(ctx, v):
    e = ctx.zk.ensure_bn
    if v is None:
        x = ctx.int("x", -W, W)
        r = e(x)
        ctx.check(is_num(r) and r == x, "big numbers keep their value")
        return
    r = e(v)
    ctx.check(is_num(r) and r == ctx.const(v), "integers keep their value")


def default_attr(ctx):
    f = ctx.zk.get_default_attr
    for v in (0, None, "", [], False, ctx.int("x", -W, W)):
        class K:
            pass
        k = K()
        k.a = v
        ctx.check(f(k, "a", 42) is v and k.a is v, "existing attributes win")
    k = K()
    ctx.check(f(k, "b") is None and k.b is None, "missing ones get the default")
    ctx.check(f(k, "c", 5) == 5 and k.c == 5 and f(k, "c", 6) == 5, "missing ones get the default once")


def keypair(ctx, n):
    """A generated BBS+ key has n + 2 different generators and a fresh exponent that belongs to its public key."""
    env = Env(ctx)
    ctx.distinct_points()
    q = env.bp.G1.order()
    env.bp.GT.generator()
    ks, ds = [], []
    for _ in range(2):
        n0 = ctx.ndraws()
        ks.append(ctx.zk.BBSPlusKeypair.generate(env.bp, n))
        ds.append([v for b, v in ctx.draws()[n0:] if b == int(q)])
        ctx.check(len(ds[-1]) == 1 == len(ctx.draws()[n0:]), "one fresh exponent")
    for k, d in zip(ks, ds):
        ctx.check(mod0(k.sk.gamma - d[0], q), "the exponent is the fresh coin")
        ctx.check(k.sk.gamma * k.pk.h0 == k.pk.w, "the public key belongs to the secret one")
        ctx.check(ne(ctx, k.pk.h0), "not neutral")
        for gs in (k.pk.generators, k.sk.generators, k.generators):
            ctx.check(len(gs) == n + 2 and same_value(ctx, list(gs), list(k.pk.generators)), "generators for n messages everywhere")
        ctx.check(k.sk.h0 == k.pk.h0 and k.h0 == k.pk.h0, "one base point everywhere")
        for i, g in enumerate(k.pk.generators):
            ctx.check(ne(ctx, g), "not neutral")
            for h in list(k.pk.generators)[:i]:
                ctx.check(negate(ctx, g == h), "pairwise different")


def cases(tier):
    d = lambda i, **o: D(i, ok=0, **o)
    L = [d(0), D(0, 1, ok=0), d(0, g=415), d(0, g="G1"), d(0, g="GT"), N(0, ok=0, bind=0), N(0, ok=0, bind=1), P(2, ok=0), R(0, 3, ok=0), B(0, ok=0),
         X(0, ok=0), X(0, ok=0, pre="point", inner="and"), X(0, ok=0, inner="or")]
    ts = list(L)
    for l in L[:1] + L[5:]:
        ts += [AND(l, d(7)), OR(d(7), l)]
    ts += [AND(d(0), OR(d(1), d(2))), OR(d(0), AND(d(1), d(2))), OR(d(0), d(1), d(2)), OR(OR(d(0), d(1)), d(2)), AND(d(0), AND(d(1), d(2)))]
    if tier != "quick":
        ts += public_trees(4, 4, share=False)
    out = []
    for bits in (1, 2, 8, 64, 127, 128, 129, 256, 512):
        for big in (0, 1):
            out.append(case("rnum %d %d" % (bits, big), "rnum", bits=bits, big=big))
    for t in ts:
        for s in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(case("challenge x%d %s" % (s, show(t)), "challenge", tree=t, sessions=s, cost=len(leaves(t))))
    hs = [D(0), D(0, 1), D(0, g="G1"), AND(D(0), D(1)), AND(D(0), D(0)), OR(D(0), D(1, ok=0)), AND(OR(D(0), D(1, ok=0)), D(2)), N(0, bind=1), P(2), R(0, 3),
          B(0), X(0), X(0, pre="point", inner="and"), OR(X(0), D(1, ok=0))]
    for t in hs:
        out.append(case("hash " + show(t), "whole_hash", tree=t, cost=len(leaves(t)) * 2))
    for t in [D(0), AND(D(0), D(1)), AND(D(0), D(0)), AND(D(0), AND(D(1), D(2)))]:
        out.append(case("used " + show(t), "used", tree=t, cost=len(leaves(t))))
    for num in (0, 1, 2, 5, 12):
        for grp in (None, 415, "G1"):
            for seed in ("default",) + SEEDS:
                for bits in (None, 512):
                    if bits is None or num == 2:
                        out.append(case("gens %d %s %s %s" % (num, grp, seed, bits), "gens", num=num, grp=grp, seed=seed, bits=bits))
    for grp in (None, 415, "G1"):
        for seed in (None, 0, 1, 5):
            out.append(case("point %s %s" % (grp, seed), "point", grp=grp, seed=seed))
    for kinds in ["", "s", "i", "n", "ss", "si", "nis", "sss", "isns", "ssssss"] + (["ssssssss"] if tier != "quick" else []):
        for mod in ("q", "c", 1, 2027):
            out.append(case("sum %s %s" % (kinds, mod), "total", kinds=kinds, mod=mod))
    for v in (None, 0, 1, -1, 42, 2 ** 31 - 1):
        out.append(case("ensure %s" % v, "ensure", v=v))
    out.append(case("attr", "default_attr"))
    for n in (1, 2, 4):
        out.append(case("keypair %d" % n, "keypair", n=n))
    for num in (24,):
        out.append(case("gens %d" % num, "gens", num=num, grp=None, seed="default", bits=None))
    out.append(case("sum large", "total", kinds="isni" * 4, mod="q"))
    for name, t in big_trees().items():
        out.append(case("challenge large " + name, "challenge", tree=unknown(t), sessions=1, cost=8))
        if name != "long":
            out.append(case("hash large " + name, "whole_hash", tree=t, cost=8))
    return out
