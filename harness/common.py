"""Pieces shared by the harness modules."""

import itertools

from .trees import *  # noqa: F401,F403
from . import trees
from .trees import Env, Side, leaves, provable, show
from symex.ctx import Skip

W = 1 << 530


def case(name, fn, cost=1, **params):
    b = {}
    for k in ("max_paths", "budget", "validate"):
        if "_" + k in params:
            b[k] = params.pop("_" + k)
    return dict({"name": name, "fn": fn, "params": params, "cost": cost}, **b)


def run_interactive(ctx, prover, verifier):
    """The documented message flow; returns (verdict, precommitment, commitment, challenge, responses)."""
    pre = prover.precommit()
    verifier.process_precommitment(pre)
    com = prover.commit()
    ch = verifier.send_challenge(com)
    resp = prover.compute_response(ch)
    return verifier.verify(resp), pre, com, ch, resp


def flat(r):
    """All numbers and points in nested values, in order."""
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in flat(r[k])]
    if isinstance(r, (list, tuple)):
        return [x for e in r for x in flat(e)]
    return [] if r is None else [r]


def is_num(x):
    return type(x).__name__ == "Bn"


def nums(r):
    return [x for x in flat(r) if is_num(x)]


def points(r):
    return [x for x in flat(r) if not is_num(x) and hasattr(x, "export")]


def shape(r):
    """Structure of a nested value: containers, lengths and kinds of leaves."""
    if isinstance(r, dict):
        return ["dict"] + [[str(k), shape(r[k])] for k in sorted(r)]
    if isinstance(r, (list, tuple)):
        return [type(r).__name__] + [shape(x) for x in r]
    return type(r).__name__


def fresh(ctx, r, name, wide=W):
    """A copy of a nested value with every number and point arbitrary."""
    if isinstance(r, dict):
        return {k: fresh(ctx, r[k], name, wide) for k in r}
    if isinstance(r, tuple):
        return tuple(fresh(ctx, x, name, wide) for x in r)
    if isinstance(r, list):
        return [fresh(ctx, x, name, wide) for x in r]
    if is_num(r):
        return ctx.int(name, -wide, wide)
    t = type(r).__name__
    if t == "EcPt":
        return ctx.point(name, r.group, inf=True)
    if t in ("G1Point", "G2Point", "AdditivePoint"):
        return ctx.bp_point(name, r.group, inf=True)
    return r


class Adversary:
    """Arbitrary transcripts of the right shape for one statement: the shape comes from the real
    simulator, every number and every point in it is replaced by an unconstrained symbol."""

    def __init__(self, ctx, env, tree):
        self.ctx, self.env, self.tree = ctx, env, tree
        st = Side(env, "s").build(tree)
        tr = st.simulate()
        self.tr = tr
        self.pre = fresh(ctx, tr.precommitment, "pre")
        self.com = fresh(ctx, tr.commitment, "com")

    def responses(self, name="r"):
        return fresh(self.ctx, self.tr.responses, name)

    def verifier(self):
        """A verifier that has received the precommitment and the commitment."""
        st = Side(self.env, "v").build(self.tree)
        v = st.get_verifier()
        v.process_precommitment(self.pre)
        return st, v

    def run(self, challenge, responses, stmt_hash=None):
        """Does a verifier that drew `challenge` accept?"""
        st, v = self.verifier()
        h = st.prehash_statement().digest() if stmt_hash is None else stmt_hash
        self.ctx.script([challenge])
        c = v.send_challenge((h, self.com))
        self.ctx.assume(c == challenge)
        return self.ctx.accepts(v.verify, responses)


def challenges(ctx, name="c", n=2):
    cs = [ctx.int(name, 0, (1 << 128) - 1) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(cs[i] != cs[j])
    return cs


def zero(x):
    """Is a group element the neutral one?"""
    return x == x.group.infinite()


def leaf_relation(env, key, t, dc, d):
    """The extraction equation of a D leaf: dc * lhs == sum d_i * base_i."""
    p = env.leaf(key, t)
    s = None
    for x, b in zip(d, p["bases"]):
        s = x * b if s is None else s + x * b
    return dc * p["lhs"] == s


def mod0(x, q):
    return x % q == 0


def extract(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    """Condition: from two accepting transcripts of this node with challenges c1, c2 (as the verifier
    enforced them) a witness can be computed for everything the node promises.

    Leaves below an and-node take part in `bind`, the map secret -> (dc, dr) of witnesses that must
    agree; each or-branch is judged on its own."""
    if t["k"] == "and":
        if not (len(r1) == len(r2) == len(t["c"])):
            return False
        return ctx.all([extract(ctx, env, s, "%s.%d" % (key, n), c1, c2, r1[n], r2[n], bind, need)
                        for n, s in enumerate(t["c"])])
    if t["k"] == "or":
        (a1, b1), (a2, b2) = r1, r2
        if not (len(a1) == len(a2) == len(b1) == len(b2) == len(t["c"])):
            return False
        return ctx.any([(extract(ctx, env, s, "%s.%d" % (key, n), a1[n], a2[n], b1[n], b2[n], dict(bind), need))
                        for n, s in enumerate(t["c"])])
    return globals()["extract_" + t["k"]](ctx, env, t, key, c1, c2, r1, r2, bind, need)


def pre_of(pre, key):
    """The part of a precommitment that belongs to the leaf `key` (t.0.1)."""
    for k in key.split(".")[1:]:
        if pre is None:
            return None
        pre = pre[int(k)]
    return pre


def nonzero(ctx, x, q):
    return ~mod0(x, q) if ctx.sym else not mod0(x, q)


def take(ctx, bind, i, dc, d, q):
    """Condition: secret i has got the value d/dc here, and the same one everywhere else."""
    if i in bind:
        dc0, d0 = bind[i]
        return mod0(d * dc0 - d0 * dc, q)
    bind[i] = (dc, d)
    return True


def diffs(r1, r2):
    """Differences of two nested response values of equal shape, None if the shapes differ."""
    if isinstance(r1, (list, tuple)) and isinstance(r2, (list, tuple)):
        if len(r1) != len(r2):
            return None
        out = [diffs(x, y) for x, y in zip(r1, r2)]
        return None if any(o is None for o in out) else out
    return r1 - r2


def extract_N(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    """alpha*g + beta*H0 = 0 and alpha*h + beta*H1 = dc*P with dc, P != 0 (mod the prime q).  Were beta = 0, then
    alpha*g = 0, so alpha = 0 and dc*P = 0.  Hence x = -alpha/beta exists, H0 = x*g, and
    beta*(H1 - x*h) = dc*P != 0, so H1 != x*h."""
    p = env.leaf(key, t)
    q, (H0, g), (H1, h) = p["q"], p["p0"], p["p1"]
    d = diffs(r1, r2)
    if d is None or [len(x) for x in d] != [2, 2] + [1] * bool(t.get("bind")):
        return False
    dc = c1 - c2
    (al, be) = d[0]
    P = pre_of(need, key)
    conds = [nonzero(ctx, dc, q), ne(ctx, P), zero(al * g + be * H0), al * h + be * H1 == dc * P]
    if t.get("bind"):
        conds += [dc * H0 == d[2][0] * g, take(ctx, bind, t["s"][0], dc, d[2][0], q)]
    return ctx.all(conds)


def ne(ctx, x):
    z = zero(x)
    return ~z if ctx.sym and not isinstance(z, bool) else not z


def extract_X(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    p = env.leaf(key, t)
    q = p["q"]
    pre = pre_of(need, key)

    def one(a1, a2, x1, x2, lhs, secret, bnd):
        d = x1[0] - x2[0]
        dc = a1 - a2
        c = [nonzero(ctx, dc, q), dc * lhs == d * p["g0"]]
        if secret is not None:
            c.append(take(ctx, bnd, secret, dc, d, q))
        return ctx.all(c)
    inner = t.get("inner", "dl")
    if inner == "dl":
        return len(r1) == len(r2) == 1 and one(c1, c2, r1, r2, p["lhs"], t["s"][0], bind)
    if inner == "and":
        k = t.get("pre", "empty")
        second = pre if k == "point" else pre[0] if k == "list" else p["lhs"]
        return ctx.all([one(c1, c2, r1[0], r2[0], p["lhs"], t["s"][0], bind),
                        one(c1, c2, r1[1], r2[1], second, None if k in ("point", "list") else t["s"][0], bind)])
    (a1, b1), (a2, b2) = r1, r2
    if not (len(a1) == len(a2) == len(b1) == len(b2) == 2):
        return False
    return ctx.any([one(a1[0], a2[0], b1[0], b2[0], p["lhs"], t["s"][0], {}), one(a1[1], a2[1], b1[1], b2[1], p["alt"], None, {})])


def extract_U(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    p, u = env.leaf(key, t), t["u"]
    q, pre = p["q"], pre_of(need, key)

    def rep(a1, a2, x1, x2, lhs, bases, secrets, bnd):
        if not (len(x1) == len(x2) == len(bases)):
            return False
        dc, d = a1 - a2, [x - y for x, y in zip(x1, x2)]
        s = None
        for x, b in zip(d, bases):
            s = x * b if s is None else s + x * b
        return ctx.all([nonzero(ctx, dc, q), dc * lhs == s] + [take(ctx, bnd, i, dc, x, q) for i, x in zip(secrets, d) if i is not None])

    def disj(r1, r2, lefts, secrets):
        (a1, b1), (a2, b2) = r1, r2
        if not (len(a1) == len(a2) == len(b1) == len(b2) == len(lefts)):
            return False
        return ctx.any([rep(a1[n], a2[n], b1[n], b2[n], lefts[n], [p["g0"]], [secrets[n]], dict(bind)) for n in range(len(lefts))])

    if u in ("rep", "rep2", "free"):
        return rep(c1, c2, r1, r2, p["lhs"], [p["g0"]], t["s"], bind)
    if u == "any":
        return disj(r1, r2, [p["lhs"], p["alt"]], [t["s"][0], None])
    if u == "deep":
        return ctx.all([disj(r1[0], r2[0], [p["alt"], p["lhs"]], [None, t["s"][0]]), rep(c1, c2, r1[1], r2[1], p["c1"], [p["h0"]], t["s"][1:], bind)])
    if u == "eg":
        return ctx.all([rep(c1, c2, r1[0], r2[0], p["lhs"], [p["g0"]], t["s"][:1], bind),
                        rep(c1, c2, r1[1], r2[1], p["c1"], [p["h0"], p["g0"]], t["s"], bind)])
    if u == "ne":
        d = diffs(r1, r2)
        if d is None or [len(x) for x in d] != [2, 2]:
            return False
        al, be = d[0]
        dc = c1 - c2
        return ctx.all([nonzero(ctx, dc, q), ne(ctx, pre), zero(al * p["g0"] + be * p["lhs"]), al * p["h0"] + be * p["c1"] == dc * pre])
    if len(r1) != 3:
        return False
    own = {}
    return ctx.all([pre["t"] > 0, ne(ctx, pre["P"]), pre["z"][1][0] == pre["t"],
                    rep(c1, c2, r1[0], r2[0], pre["P"], [p["g0"]], ["k"], own),
                    rep(c1, c2, r1[1], r2[1], p["lhs"] + pre["t"] * pre["P"], [p["g0"]], ["y"], own),
                    rep(c1, c2, r1[2], r2[2], p["lhs"], [p["g0"]], t["s"], bind)])


def extract_bits(ctx, g, h, com, n, q, pre, r1, r2):
    """Every bit commitment opens to 0 or 1, and their weighted sum is com up to a known multiple of h."""
    cs = pre["Cs"]
    if len(cs) != n:
        return False
    bits1, bits2 = ([r1], [r2]) if n == 1 else (r1, r2)
    if not (len(bits1) == len(bits2) == n):
        return False
    conds = []
    total = None
    for i in range(n):
        (a1, b1), (a2, b2) = bits1[i], bits2[i]
        if not (len(a1) == len(a2) == len(b1) == len(b2) == 2):
            return False
        alts = []
        for j in (0, 1):
            dc, d = a1[j] - a2[j], b1[j][0] - b2[j][0]
            alts.append(nonzero(ctx, dc, q) & (dc * (cs[i] - g if j else cs[i]) == d * h) if ctx.sym else
                        nonzero(ctx, dc, q) and dc * (cs[i] - g if j else cs[i]) == d * h)
        conds.append(ctx.any(alts))
        w = ctx.const(1 << i) * cs[i]
        total = w if total is None else total + w
    conds.append(total == com + pre["rand"] * h)
    return ctx.all(conds)


def extract_P(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    p = env.leaf(key, t)
    return extract_bits(ctx, p["g"], p["h"], p["com"], t["n"], p["q"], pre_of(need, key), r1, r2)


def extract_R(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    """An opening of com, of com - a*g and of com + (2^n - b)*g in [0, 2^n): so its value is in [a, b)."""
    p = env.leaf(key, t)
    q, a, b = p["q"], t["a"], t["b"]
    pre = pre_of(need, key)
    n = max((b - a - 1).bit_length(), 1)
    if not (len(r1) == len(r2) == 3):
        return False
    d, dc = diffs(r1[0], r2[0]), c1 - c2
    if d is None or len(d) != 2:
        return False
    conds = [nonzero(ctx, dc, q), dc * p["com"] == d[0] * p["g"] + d[1] * p["h"]]
    if t["s"]:
        conds.append(take(ctx, bind, t["s"][0], dc, d[0], q))
    for k, off in ((1, -a), (2, (1 << n) - b)):
        conds.append(extract_bits(ctx, p["g"], p["h"], p["com"] + ctx.const(off) * p["g"], n, q, pre[k], r1[k], r2[k]))
    return ctx.all(conds)


def extract_B(ctx, env, t, key, c1, c2, r1, r2, bind, need):
    """The three relations from which (e, s, messages, A = A2 - r1*g2) is a signature, unless a relation
    between g1 and g2 became known (see lemma in c17)."""
    p = env.leaf(key, t)
    pk, q = p["kp"].pk, p["q"]
    pre = pre_of(need, key)
    A1, A2 = pre["A1"], pre["A2"]
    g = pk.generators
    n = len(t["s"])
    d = diffs(r1, r2)
    if d is None or [len(x) for x in d] != [2, 3, 4 + n]:
        return False
    dc = c1 - c2
    (r1_, r2_), (de1, de2, e), last = d
    s, ms = last[3], last[4:]
    conds = [nonzero(ctx, dc, q), mod0(last[0] - e, q), mod0(last[1] - r1_, q), mod0(last[2] - de1, q),
             dc * A1 == r1_ * g[1] + r2_ * g[2], de1 * g[1] + de2 * g[2] == e * A1]
    msum = dc * g[0] + s * g[1]
    for m, b in zip(ms, g[2:]):
        msum = msum + m * b
    conds.append((dc * A2 - r1_ * g[2]).pair(pk.w) + (e * A2 - de1 * g[2]).pair(pk.h0) == msum.pair(pk.h0))
    for i, m in zip(t["s"], ms):
        conds.append(take(ctx, bind, i, dc, m, q))
    return ctx.all(conds)


def sound_interactive(ctx, tree):
    """Two accepted answers to different challenges on one commitment give a witness."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    c1, c2 = challenges(ctx)
    r1, r2 = a.responses("r"), a.responses("s")
    if not a.run(c1, r1):
        ctx.check(True, "rejected")
        raise Skip()
    if not a.run(c2, r2):
        raise Skip()
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, a.pre),
              "two accepted answers to one commitment give a witness")


def sound_nizk(ctx, tree):
    """The same for two answers of the oracle to the query of an accepted proof."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    m = ctx.text("m")
    out = []
    for k in (1, 2):
        st = Side(env, "v").build(tree)
        c = ctx.int("c%d" % k, 0, (1 << 256) - 1)
        r = a.responses("r")
        v = st.get_verifier()
        v.process_precommitment(a.pre)
        ctx.fork_oracle(k)
        n = ctx.zk.NIZK(c, r, a.pre, st.prehash_statement().digest())
        if not ctx.accepts(Side(env, "v").build(tree).verify, n, m):
            ctx.check(True, "rejected")
            raise Skip()
        out.append((c, r, ctx.last_query()))
    (c1, r1, q1), (c2, r2, q2) = out
    ctx.assume(ctx.same_query(q1, q2))
    ctx.assume((c1 - c2) % ctx.const(1 << 128) != 0)
    for q in {int(env.leaf(k, l)["q"]) for k, l in keyed(tree)}:
        ctx.assume((c1 - c2) % ctx.const(q) != 0)
    ctx.check(extract(ctx, env, tree, "t", c1, c2, r1, r2, {}, a.pre),
              "two accepted proofs with the same oracle query give a witness")


def keyed(t, key="t"):
    """(key, leaf) of all leaves."""
    if "c" in t:
        return [x for n, s in enumerate(t["c"]) for x in keyed(s, "%s.%d" % (key, n))]
    return [(key, t)]


def extract_D(ctx, env, t, key, c1, c2, r1, r2, bind, need=None):
    p = env.leaf(key, t)
    q = p["q"]
    if not (len(r1) == len(r2) == len(t["s"])):
        return False
    dc = c1 - c2
    conds = [~mod0(dc, q) if ctx.sym else not mod0(dc, q)]
    ds = []
    for i, (x, y) in zip(t["s"], zip(r1, r2)):
        d = x - y
        ds.append(d)
        if i in bind:
            dc0, d0 = bind[i]
            conds.append(mod0(d * dc0 - d0 * dc, q))
        else:
            bind[i] = (dc, d)
    conds.append(leaf_relation(env, key, t, dc, ds))
    return ctx.all(conds)


def known_combos(pat, shape_, n):
    """Which secrets are known, as assignments to leaves (a secret is known as a whole)."""
    ids = sorted(set(pat))
    for vals in itertools.product((1, 0), repeat=len(ids)):
        m = dict(zip(ids, vals))
        yield [m[i] for i in pat]


def tree_cases(nmax, nmin=1, need=provable, share=True):
    out = []
    for n in range(nmin, nmax + 1):
        for sh in shapes(n):
            for pat in (patterns(sh, n) if share else [list(range(n))]):
                for ok in known_combos(pat, sh, n):
                    t = fill(sh, [D(i, ok=o) for i, o in zip(pat, ok)])
                    if need(t):
                        out.append(t)
    return out


def public_trees(nmax, nmin=1, share=True):
    """Trees whose leaves are arbitrary public statements (no honest witness anywhere)."""
    out = []
    for n in range(nmin, nmax + 1):
        for sh in shapes(n):
            for pat in (patterns(sh, n) if share else [list(range(n))]):
                out.append(fill(sh, [D(i, ok=0) for i in pat]))
    return out


def obj_trees(tier, public_=False):
    """Trees in which one statement object (a leaf, or a composition with state in its parts) occurs several
    times, in different branches and under different nodes."""
    out = []
    prims = [N(0), N(0, bind=1), X(0, pre="point", inner="and"), R(3, 4), P(1)]
    if tier != "quick":
        prims += [X(0, pre="list", inner="or"), X(0, pre="none"), B(0), R(2, 5), P(2)]
    lost, d, e = dict(ok=0), D(5), D(6, ok=0)
    for k in prims:
        u = dict(k, ok=0)
        a = obj("a", AND(k, D(1)))
        out += [OR(a, a), OR(AND(a, d), AND(a, e)), OR(a, AND(a, d))]
        o = obj("o", OR(u, D(1)))
        out += [OR(AND(o, d), e, AND(o, d)), OR(AND(obj("a", AND(u, D(1))), d), D(7), AND(obj("a", AND(u, D(1))), e))]
        l = obj("l", k)
        out += [OR(l, AND(l, e)), OR(AND(l, d), AND(l, e)), OR(AND(obj("l", u), d), AND(obj("l", u), e), D(7))]
    for k in (D(0), D(0, 1)):
        l = obj("l", k)
        a = obj("a", AND(k, D(1)))
        out += [AND(l, l), OR(l, l), AND(l, AND(l, d)), OR(AND(l, d), AND(l, e)), AND(a, AND(a, d)), OR(a, AND(a, e)), OR(OR(a, e), AND(a, d))]
    o = obj("o", OR(D(0), D(1, **lost)))
    out += [OR(o, o), OR(o, AND(o, d)), OR(AND(o, e), AND(o, d))]
    if public_:
        out = [unknown(t) for t in out]
    return out


def big_trees(n=10, deep=6):
    """Few large provable statements: long representations, wide compositions, deep nesting, secrets running through all parts."""
    d = [D(i) for i in range(n)]
    # (most unknown branches are marked: the prover tries the others in every order)
    u = [D(i, ok=0) for i in range(n)]
    m = [dict(x, sim=1) for x in u]
    out = {"long": D(*range(n)), "long, repeated": D(*(i % 3 for i in range(n))), "wide": AND(*d),
           "chain": AND(*[D(i, (i + 1) % n) for i in range(n)]),
           "wide, one secret": AND(*[D(0) for _ in range(n)]),
           "wide or, last known": OR(*u[:2], *m[2:-1], d[-1]), "wide or, first known": OR(d[0], *m[1:-2], *u[-2:]),
           "wide or of ands": OR(*[AND(u[i], D(i, n + i, ok=0)) for i in range(n // 2 - 1)], AND(d[-1], D(n - 1, n)))}
    for name, kinds in (("deep", "ao"), ("deep or", "oa")):
        t = D(deep - 1) if name == "deep" else D(deep - 1, ok=0)
        for i in range(deep - 2, -1, -1):
            if kinds[i % 2] == "a":
                t = AND(D(i, ok=int(name == "deep" or i > 0)), t)
            else:
                t = OR(D(i, ok=int(i == 0 and name != "deep")), t)
        out[name] = t
    t = D(0)
    for i in range(1, deep):
        t = AND(t, D(i, i - 1))
    out["deep and"] = t
    t = D(0)
    for i in range(1, deep):
        t = OR(D(i, ok=0), t)
    out["deep or or"] = t
    return out


def huge_trees(n=20):
    """Still larger ones of simple shape."""
    m = [D(i, ok=0, sim=1) for i in range(n)]
    return {"long %d" % n: D(*range(n)), "long %d, last again" % n: D(*range(n - 1), n - 2), "wide %d" % n: AND(*[D(i % (n - 1)) for i in range(n)]),
            "wide or %d" % n: OR(*m[:-1], D(n)), "wide or %d, first" % n: OR(D(n), *m[1:])}


CURVES = (409, 716)


def curve_trees(known=True):
    """Statements over curves with a short (192 bit) and a long (521 bit) order."""
    out = []
    for g in CURVES:
        d, e = D(0, 1, g=g), D(2, g=g, ok=0)
        out += [D(0, g=g), d, AND(d, D(1, g=g)), OR(d, e), OR(e, d), N(0, g=g), N(0, bind=1, g=g), X(0, pre="point", g=g), P(2, g=g), R(2, 5, g=g),
                OR(AND(D(3, g=409), D(4, g=716)), e)]
    return out if known else [unknown(t) for t in out]


def unknown(t):
    """The same public statement without any witness."""
    if "c" in t:
        return dict(t, c=[unknown(c) for c in t["c"]])
    return {k: v for k, v in dict(t, ok=0).items() if k != "sim"}


# ----------------------------------------------------------------- statements as public objects
PUBLIC = {"D": ("lhs", "bases"), "N": ("p0", "p1"), "P": ("com", "g", "h"), "R": ("com", "g", "h"),
          "X": ("lhs", "g0"), "B": (), "U": ()}


def public(env, t, key="t"):
    """All public group elements of a statement, in order."""
    if "c" in t:
        return [x for n, s in enumerate(t["c"]) for x in public(env, s, "%s.%d" % (key, n))]
    p = env.leaf(key, t)
    out = [x for k in PUBLIC[t["k"]] for x in flat(p[k])]
    if t["k"] == "X" and t.get("inner") == "or":
        out.append(p["alt"])
    if t["k"] == "U":
        out += [p[k] for k in sorted(p) if k != "q"]
    if t["k"] == "B":
        n = len(t["s"]) + 2
        out += [p["kp"].pk.w, p["kp"].pk.h0] + list(p["kp"].pk.generators[:n])
    return out


def struct(t, ids=None):
    """The statement's structure with secrets numbered by first occurrence."""
    if ids is None:
        ids = {}
    if "c" in t:
        return [t["k"]] + [struct(s, ids) for s in t["c"]]
    r = [t["k"]] + [ids.setdefault(i, len(ids)) for i in t["s"]]
    if t["k"] in "PR":
        ids[len(ids), "x"] = len(ids)
    for k in ("n", "a", "b", "bind", "pre", "inner", "u"):
        if k in t:
            r.append([k, t[k]])
    r.append(t.get("g", DEF))
    return r


def same_value(ctx, a, b):
    """Equality of nested values, as a condition."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b)):
            return False
        return ctx.all([same_value(ctx, a[k], b[k]) for k in sorted(a)])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)):
            return False
        return ctx.all([same_value(ctx, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        return isinstance(a, bytes) == isinstance(b, bytes) and isinstance(a, str) == isinstance(b, str) and a == b
    if is_num(a) != is_num(b):
        if isinstance(a, int) or isinstance(b, int):
            return a == b
        return False
    if type(a).__name__ != type(b).__name__:
        return False
    if hasattr(a, "export") and not a.group == b.group:
        return False
    return a == b


def same_public(ctx, ea, a, eb, b):
    pa, pb = public(ea, a), public(eb, b)
    return struct(a) == struct(b) and len(pa) == len(pb) and same_value(ctx, pa, pb)


def replace_at(r, path, v):
    """Copy of a nested value with one position replaced."""
    if not path:
        return v
    if isinstance(r, dict):
        return {k: (replace_at(x, path[1:], v) if k == path[0] else x) for k, x in r.items()}
    out = [replace_at(x, path[1:], v) if n == path[0] else x for n, x in enumerate(r)]
    return tuple(out) if isinstance(r, tuple) else out


def positions(r, pre=()):
    """Paths of all leaves of a nested value."""
    if isinstance(r, dict):
        return [p for k in sorted(r) for p in positions(r[k], pre + (k,))]
    if isinstance(r, (list, tuple)):
        return [p for n, x in enumerate(r) for p in positions(x, pre + (n,))]
    return [] if r is None else [pre]


def at(r, path):
    for k in path:
        r = r[k]
    return r


# ----------------------------------------------------------------- places inside responses
def leaf_at(t, path, key="t"):
    """(key, leaf, rest of the path) of a position inside responses; ('', None, rest) when it holds an
    or-challenge."""
    path = list(path)
    while path and "c" in t:
        if t["k"] == "or":
            if path.pop(0) == 0:
                return "", None, path
        n = path.pop(0)
        t, key = t["c"][n], "%s.%d" % (key, n)
    if t["k"] == "R":
        if path.pop(0) == 0:
            return key, t, path
        t2 = P(max((t["b"] - t["a"] - 1).bit_length(), 1))
    else:
        t2 = t
    if t2["k"] == "P":
        if path[1 if t2["n"] > 1 else 0] == 0:
            return "", None, path
    if t2["k"] == "X" and t2.get("inner") == "or" and path[0] == 0:
        return "", None, path
    if t2["k"] == "U" and (t2["u"] == "any" and path[0] == 0 or t2["u"] == "deep" and path[:2] == [0, 0]):
        return "", None, path
    return key, t, path


def is_subchallenge(tree, path):
    return leaf_at(tree, path)[1] is None


def order_at(env, tree, path):
    """The order of the group a response belongs to, None for or-challenges."""
    k, l, _ = leaf_at(tree, path)
    return None if l is None else env.leaf(k, l)["q"]


def by_order(env, tree, r, pre=None):
    """Responses (not or-challenges) and precommitted numbers and points, grouped by group order."""
    out = {}
    for p in positions(r):
        q = order_at(env, tree, p)
        if q is not None:
            out.setdefault(int(q), ([], []))[0].append(at(r, p))
    return out


def pre_order(env, tree):
    """Only range proofs precommit to numbers."""
    for k, l in keyed(tree):
        if l["k"] in "PR":
            return int(env.leaf(k, l)["q"])
    return None


def published(ctx, env, tree, resp, pre, numbers, points_):
    """Adds all numbers and points of responses and precommitment to the dictionaries, by group
    order, and checks that precommitted numbers are reduced."""
    for q, (xs, _) in by_order(env, tree, resp).items():
        # (responses of one secret are the same within one proof)
        numbers.setdefault(q, []).append(list(xs))
    pq = pre_order(env, tree)
    for x in nums(pre) if pq is not None else []:
        ctx.check(x >= 0, "precommitted numbers are not negative")
        ctx.check(x < ctx.const(pq), "precommitted numbers are reduced")
        numbers.setdefault(pq, []).append(x)
    for x in points(pre):
        points_.setdefault(int(x.group.order()), []).append(x)
