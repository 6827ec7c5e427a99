"""Statement trees: JSON specs, builders for the prover's and the verifier's side, oracles.

A spec is a dict.  Leaves:
  D  discrete-log representation   {"k":"D","s":[secret,...],"ok":0|1,"sim":0|1,"g":curve or "G1"/"G2"/"GT"}
  N  inequality of discrete logs    {"k":"N","s":[x],"bind":0|1}
  P  power-of-two range             {"k":"P","n":bits}
  R  range [a, b)                   {"k":"R","a":..,"b":..}
  B  BBS+ signature possession      {"k":"B","s":[messages],"bind":0|1}
  X  custom extended statement      {"k":"X","s":[x],"pre":"none|empty|point|list","inner":"dl|and|or"}
  U  primitive as a user writes it  {"k":"U","s":[...],"u":"rep|rep2|free|eg|any|deep|ne|dict"} (docs/new_primitives.rst)
Inner nodes: {"k":"and"|"or","c":[...]}.
`obj`: nodes of one name are built as one statement object that is used in several places (see `obj`).
`ok`: 1 the prover knows the witness, 0 it does not (secrets without values, unrelated left side).
"""

from symex.ctx import Skip

DEF = 713


def D(*s, **o):
    return dict({"k": "D", "s": list(s)}, **o)


def N(x=0, **o):
    return dict({"k": "N", "s": [x]}, **o)


def P(n, **o):
    return dict({"k": "P", "n": n, "s": []}, **o)


def R(a, b, **o):
    return dict({"k": "R", "a": a, "b": b, "s": []}, **o)


def B(*s, **o):
    return dict({"k": "B", "s": list(s)}, **o)


def X(x=0, **o):
    return dict({"k": "X", "s": [x]}, **o)


def U(u, *s, **o):
    return dict({"k": "U", "u": u, "s": list(s)}, **o)


def AND(*c, **o):
    return dict({"k": "and", "c": list(c)}, **o)


def OR(*c, **o):
    return dict({"k": "or", "c": list(c)}, **o)


def obj(name, t):
    """A subtree that is one object wherever it occurs in the tree: its leaves have their own keys."""
    def keys(t, key):
        if "c" in t:
            return dict(t, c=[keys(c, "%s.%d" % (key, n)) for n, c in enumerate(t["c"])])
        return dict(t, key=key)
    return dict(keys(t, name), obj=name)


def leaves(t):
    return [t] if "c" not in t else [l for c in t["c"] for l in leaves(c)]


def provable(t):
    if t.get("sim"):
        return False
    if t["k"] == "and":
        return all(provable(c) for c in t["c"])
    if t["k"] == "or":
        return any(provable(c) for c in t["c"])
    return bool(t.get("ok", 1)) and "lacks" not in t


def show(t):
    if "c" in t:
        return "(" + {"and": " & ", "or": " | "}[t["k"]].join(show(c) for c in t["c"]) + ")" + ("~" if t.get("sim") else "") + \
            ("@" + t["obj"] if "obj" in t else "")
    a = t["k"] + ",".join(map(str, t["s"]))
    for k in sorted(t):
        if k not in ("k", "s", "key"):
            a += ":%s%s" % (k, t[k])
    return a


class Env:
    """Public values and witnesses, shared by the prover's and the verifier's statements."""

    def __init__(self, ctx, wide=False):
        self.ctx = ctx
        self.wide = wide
        self.values = {}
        self.pub = {}
        self.n = 0
        self._bp = None
        self._kp = {}

    # groups ---------------------------------------------------------------
    @property
    def bp(self):
        if self._bp is None:
            self._bp = self.ctx.zk.BilinearGroupPair()
        return self._bp

    def group(self, g):
        if g in ("G1", "G2", "GT"):
            return getattr(self.bp, g)
        return self.ctx.group(g)

    def point(self, name, g, inf=False):
        if g in ("G1", "G2", "GT"):
            return self.ctx.bp_point(name, self.group(g), inf)
        return self.ctx.point(name, self.group(g), inf)

    def value(self, i, q):
        if i not in self.values:
            if self.wide:
                self.values[i] = self.ctx.int("x%s" % i, -(1 << 530), 1 << 530)
            else:
                self.values[i] = self.ctx.scalar("x%s" % i, q)
        return self.values[i]

    # public part of each leaf, created once -----------------------------------
    def leaf(self, key, t):
        key = t.get("key", key)
        if key not in self.pub:
            self.pub[key] = getattr(self, "pub_" + t["k"])(t)
        return self.pub[key]

    def pub_D(self, t):
        g = t.get("g", DEF)
        G = self.group(g)
        if isinstance(g, str):
            G.generator()
        q = G.order()
        bases = [self.point("g", g) for _ in t["s"]]
        if t.get("same"):
            bases = [bases[0] for _ in bases]
        if t.get("ok", 1) and not t.get("false"):
            lhs = None
            for i, b in zip(t["s"], bases):
                v = self.value(i, q) * b
                lhs = v if lhs is None else lhs + v
        else:
            lhs = self.point("Y", g, inf=True)
        return {"bases": bases, "lhs": lhs, "q": q}

    def pub_N(self, t):
        g = t.get("g", DEF)
        G = self.group(g)
        q = G.order()
        g0, g1 = self.point("g", g), self.point("h", g)
        if t.get("ok", 1):
            x = self.value(t["s"][0], q)
            h0 = x * g0
            if t.get("false"):
                h1 = x * g1
            else:
                h1 = self.point("H", g, inf=True)
                self.ctx.assume(h1 != x * g1)
        else:
            h0 = self.point("Y", g, inf=True)
            h1 = self.point("H", g, inf=True)
        return {"p0": (h0, g0), "p1": (h1, g1), "q": q}

    def _com(self, t, lo, hi):
        gr = t.get("g", DEF)
        G = self.group(gr)
        if isinstance(gr, str):
            G.generator()
        q = G.order()
        g, h = self.point("g", gr), self.point("h", gr)
        if t.get("ok", 1) and t["s"]:
            x, r = self.value(t["s"][0], q), self.ctx.scalar("r", q)
            self.ctx.assume((x >= lo) & (x < hi))
            com = x * g + r * h
        elif t.get("ok", 1) and t.get("false"):
            # the value is known, but outside of the range
            x = self.ctx.int("v", lo - 40, hi + 40)
            self.ctx.assume((x < lo) | (x >= hi))
            r = self.ctx.scalar("r", q)
            com = x * g + r * h
        elif t.get("ok", 1):
            x = self.ctx.int("v", lo, hi - 1)
            r = self.ctx.scalar("r", q)
            com = x * g + r * h
        else:
            x = r = None
            com = self.point("C", gr, inf=True)
        return {"g": g, "h": h, "com": com, "x": x, "r": r, "q": q}

    def pub_P(self, t):
        return self._com(t, 0, 1 << t["n"])

    def pub_R(self, t):
        return self._com(t, t["a"], t["b"])

    # adversarial checks take the generators as inputs, so that counterexamples can be replayed
    explicit_generators = False

    def pub_U(self, t):
        g, u = t.get("g", DEF), t["u"]
        G = self.group(g)
        if isinstance(g, str):
            G.generator()
        q = G.order()
        ok = t.get("ok", 1) and not t.get("false")
        p = {"g0": self.point("g", g), "q": q}
        if u in ("eg", "deep", "ne"):
            p["h0"] = self.point("h", g)
        if u in ("any", "deep"):
            p["alt"] = self.point("Z", g, inf=True)
        p["lhs"] = self.value(t["s"][0], q) * p["g0"] if ok else self.point("Y", g, inf=True)
        if u in ("eg", "deep"):
            if ok:
                m = self.value(t["s"][1], q)
                p["c1"] = self.value(t["s"][0], q) * p["h0"] + m * p["g0"] if u == "eg" else m * p["h0"]
            else:
                p["c1"] = self.point("C", g, inf=True)
        if u == "ne":
            p["c1"] = self.point("H", g, inf=True)
            if ok:
                self.ctx.assume(p["c1"] != self.value(t["s"][0], q) * p["h0"])
        return p

    def keypair(self, n):
        if n not in self._kp:
            self._kp[n] = explicit_keypair(self.ctx, self.bp, n + 2) if self.explicit_generators else \
                self.ctx.zk.BBSPlusKeypair.generate(self.bp, n)
        return self._kp[n]

    def pub_B(self, t):
        n = len(t["s"])
        kp = self.keypair(n)
        q = self.bp.G1.order()
        for g in kp.generators:
            pass
        sig = None
        if t.get("ok", 1):
            msgs = [self.value(i, q) for i in t["s"]]
            if t.get("false"):
                msgs = [self.ctx.scalar("other", q) for _ in msgs]
            creator = self.ctx.zk.BBSPlusSignatureCreator(kp.pk)
            com = creator.commit(msgs, zkp=False)
            sig = creator.obtain_signature(sign(self.ctx, kp, com.com_message, q))
        return {"kp": kp, "sig": sig, "q": q}

    def pub_X(self, t):
        g = t.get("g", DEF)
        G = self.group(g)
        q = G.order()
        g0 = self.point("g", g)
        if t.get("ok", 1) and not t.get("false"):
            lhs = self.value(t["s"][0], q) * g0
        else:
            lhs = self.point("Y", g, inf=True)
        return {"g0": g0, "lhs": lhs, "q": q, "alt": self.point("Z", g, inf=True)}


def explicit_keypair(ctx, bp, n):
    """A key over arbitrary generators."""
    zk = ctx.zk
    gens = [ctx.bp_point("gen", bp.G1) for _ in range(n)]
    h0 = bp.G2.generator()
    gamma = ctx.int("gamma", 1, int(bp.G1.order()) - 1)
    return zk.BBSPlusKeypair(generators=gens, h0=h0, sk=zk.BBSPlusSecretKey(gamma=gamma, generators=gens, h0=h0),
                             pk=zk.BBSPlusPublicKey(w=gamma * h0, generators=gens, h0=h0))


def sign(ctx, kp, lhs, q):
    """Sign; the negligible event that the drawn e equals -gamma (no inverse exists) is left out."""
    n0 = ctx.ndraws()
    kind, r = ctx.attempt(kp.sk.sign, lhs)
    if kind == "ok":
        return r
    for _, d in ctx.draws()[n0:]:
        if (kp.sk.gamma + d) % q == 0:
            raise Skip()
    raise r



def custom_cls(ctx):
    """An extended statement as a user would write one, following docs/new_primitives.rst."""
    zk = ctx.zk

    class Custom(zk.ExtendedProofStmt):
        def __init__(self, lhs, g, x, alt, pre, inner):
            self.lhs, self.g, self.x, self.alt, self.pre, self.inner = lhs, g, x, alt, pre, inner
            self.k = zk.Secret()
            self.k2 = zk.Secret()

        def has_witness(self):
            return self.x.value is not None

        def precommit(self):
            if self.pre == "none":
                return None
            if self.pre == "empty":
                return []
            self.k.value = self.g.group.order().random()
            p = self.k.value * self.g
            return p if self.pre == "point" else [p, 1]

        def simulate_precommit(self):
            if self.pre == "none":
                return None
            if self.pre == "empty":
                return []
            p = self.g.group.order().random() * self.g
            return p if self.pre == "point" else [p, 1]

        def construct_stmt(self, precommitment):
            a = zk.DLRep(self.lhs, self.x * self.g)
            if self.inner == "dl":
                return a
            if self.pre in ("point", "list"):
                p = precommitment if self.pre == "point" else precommitment[0]
                b = zk.DLRep(p, self.k * self.g)
            else:
                b = zk.DLRep(self.lhs, self.x * self.g)
            if self.inner == "and":
                return zk.AndProofStmt(a, b)
            return zk.OrProofStmt(a, zk.DLRep(self.alt, self.k2 * self.g))

    return Custom


def user_classes(ctx):
    """Primitives as a user would write them from docs/new_primitives.rst; those without precommit override
    construct_stmt only."""
    zk = ctx.zk

    class Base(zk.ExtendedProofStmt):
        def __init__(self, p, *secrets):
            self.p, self.secrets = p, secrets
            self.k, self.k2 = zk.Secret(), zk.Secret()

    class Rep(Base):
        def construct_stmt(self, precommitment):
            return zk.DLRep(self.p["lhs"], self.secrets[0] * self.p["g0"])

    class Alias(Rep):
        pass

    class Free(Rep):
        """A precommitment that the constructed statement does not use."""

        def precommit(self):
            q = self.p["g0"].group.order()
            return [q.random(), {"T": q.random() * self.p["g0"], "n": 7}]

        simulate_precommit = precommit

        def has_witness(self):
            return self.secrets[0].value is not None

    class ElGamal(Base):
        def construct_stmt(self, precommitment):
            r, m = self.secrets
            return zk.DLRep(self.p["lhs"], r * self.p["g0"]) & zk.DLRep(self.p["c1"], r * self.p["h0"] + m * self.p["g0"])

    class Any(Base):
        def construct_stmt(self, precommitment):
            return zk.DLRep(self.p["lhs"], self.secrets[0] * self.p["g0"]) | zk.DLRep(self.p["alt"], self.k2 * self.p["g0"])

    class Deep(Base):
        def construct_stmt(self, precommitment):
            x, z = self.secrets
            return zk.AndProofStmt(zk.OrProofStmt(zk.DLRep(self.p["alt"], self.k2 * self.p["g0"]), zk.DLRep(self.p["lhs"], x * self.p["g0"])),
                                   zk.DLRep(self.p["c1"], z * self.p["h0"]))

    class NotEqual(Base):
        def precommit(self):
            q = self.p["g0"].group.order()
            b = q.random()
            x = self.secrets[0]
            self.k.value = x.value * b % q
            self.k2.value = -b % q
            return b * (x.value * self.p["h0"] - self.p["c1"])

        def construct_stmt(self, precommitment):
            p = self.p
            inf = p["g0"].group.infinite()
            return zk.DLRep(inf, self.k * p["g0"] + self.k2 * p["lhs"]) & zk.DLRep(precommitment, self.k * p["h0"] + self.k2 * p["c1"])

        def validate(self, precommitment):
            if precommitment == self.p["g0"].group.infinite():
                raise ctx.m("zksk.exceptions").ValidationError("Invalid precommitment")

        def simulate_precommit(self):
            G = self.p["g0"].group
            return G.order().random() * self.p["g0"]

    class Dict(Base):
        """Proves lhs + t*P = y*g0 for a precommitted point P = k*g0 and number t > 0."""

        def has_witness(self):
            return self.secrets[0].value is not None

        def out(self, P, t):
            return {"P": P, "t": t, "z": [1, [t, "text"]]}

        def precommit(self):
            q = self.p["g0"].group.order()
            self.k.value = q.random()
            t = ctx.const(1) + (q - 1).random()
            self.k2.value = self.secrets[0].value + t * self.k.value
            return self.out(self.k.value * self.p["g0"], t)

        def simulate_precommit(self):
            q = self.p["g0"].group.order()
            return self.out(q.random() * self.p["g0"], ctx.const(1) + (q - 1).random())

        def construct_stmt(self, pre):
            p = self.p
            return zk.AndProofStmt(zk.DLRep(pre["P"], self.k * p["g0"]), zk.DLRep(p["lhs"] + pre["t"] * pre["P"], self.k2 * p["g0"]),
                                   zk.DLRep(p["lhs"], self.secrets[0] * p["g0"]))

        def validate(self, pre):
            bad = pre["t"] <= 0 or pre["P"] == self.p["g0"].group.infinite() or pre["z"][0] != 1 or pre["z"][1][1] != "text"
            if bad or pre["z"][1][0] != pre["t"]:
                raise ctx.m("zksk.exceptions").ValidationError("Invalid precommitment")

    return {"rep": Rep, "rep2": Alias, "free": Free, "eg": ElGamal, "any": Any, "deep": Deep, "ne": NotEqual, "dict": Dict}


class Side:
    """One party's statements: its own secret objects (and names), values or not."""

    def __init__(self, env, role="v", how="ctor", names=None, flags="before"):
        self.env, self.ctx, self.role, self.how = env, env.ctx, role, how
        self.secrets = {}
        self.objs = {}
        self.dict = {}
        self.names = names
        self.leaf_no = 0
        self.custom = self.user = None
        # how branches are marked as simulated: before composing, through subproofs, at construction
        self.flags = flags

    def simkw(self, t):
        return {"simulated": True} if t.get("sim") and self.role == "p" and self.flags == "ctor" else {}

    def secret(self, i, q, known):
        zk = self.ctx.zk
        if i not in self.secrets:
            kw = {}
            if self.names is not None:
                kw["name"] = self.names(i)
            if self.role == "p" and known and self.how == "ctor":
                s = zk.Secret(value=self.env.value(i, q), **kw)
            else:
                s = zk.Secret(**kw)
            if self.role == "p" and known and self.how == "prove":
                self.dict[s] = self.env.value(i, q)
            self.secrets[i] = s
        return self.secrets[i]

    def known_ids(self, t):
        return {i for l in leaves(t) if l.get("ok", 1) for i in l["s"]}

    def build(self, t, key="t"):
        if not hasattr(self, "known"):
            self.known = self.known_ids(t)
        if "obj" in t:
            if t["obj"] not in self.objs:
                self.objs[t["obj"]] = self.build({k: v for k, v in t.items() if k != "obj"}, key)
            return self.objs[t["obj"]]
        if "c" in t:
            subs = [self.build(c, key + "." + str(n)) for n, c in enumerate(t["c"])]
            if t.get("op"):
                st = subs[0]
                for s in subs[1:]:
                    st = (st & s) if t["k"] == "and" else (st | s)
            else:
                st = (self.ctx.zk.AndProofStmt if t["k"] == "and" else self.ctx.zk.OrProofStmt)(*subs)
        else:
            st = getattr(self, "mk_" + t["k"])(t, t.get("key", key))
        if t.get("sim") and self.role == "p" and self.flags == "before":
            st.set_simulated()
        if self.flags == "after" and self.role == "p" and "c" in t:
            for n, c in enumerate(t["c"]):
                if c.get("sim"):
                    st.subproofs[n].set_simulated()
        return st

    def mk_D(self, t, key):
        p = self.env.leaf(key, t)
        e = None
        for i, b in zip(t["s"], p["bases"]):
            x = self.secret(i, p["q"], i in self.known) * b
            e = x if e is None else e + x
        return self.ctx.zk.DLRep(p["lhs"], e, **self.simkw(t))

    def mk_N(self, t, key):
        p = self.env.leaf(key, t)
        x = self.secret(t["s"][0], p["q"], t["s"][0] in self.known)
        return self.ctx.zk.DLNotEqual(p["p0"], p["p1"], x, bind=bool(t.get("bind")), **self.simkw(t))

    def _xr(self, p, t):
        zk = self.ctx.zk
        if t["s"]:
            x = self.secret(t["s"][0], p["q"], t["s"][0] in self.known)
            return x, zk.Secret(value=p["r"]) if self.role == "p" and p["r"] is not None else zk.Secret()
        if self.role == "p" and p["x"] is not None:
            return (zk.Secret(value=v) if t.get("lacks") != k else zk.Secret() for k, v in (("x", p["x"]), ("r", p["r"])))
        return zk.Secret(), zk.Secret()

    def mk_P(self, t, key):
        p = self.env.leaf(key, t)
        x, r = self._xr(p, t)
        if self.role != "p" and t.get("dflt"):
            return self.ctx.zk.PowerTwoRangeStmt(p["com"], p["g"], p["h"], t["n"])
        return self.ctx.zk.PowerTwoRangeStmt(p["com"], p["g"], p["h"], t["n"], x, r)

    def mk_R(self, t, key):
        p = self.env.leaf(key, t)
        x, r = self._xr(p, t)
        return self.ctx.zk.RangeStmt(p["com"], p["g"], p["h"], t["a"], t["b"], x, r)

    def mk_B(self, t, key):
        p = self.env.leaf(key, t)
        zk = self.ctx.zk
        msgs = [self.secret(i, p["q"], i in self.known) for i in t["s"]]
        sig = p["sig"] if self.role == "p" and t.get("lacks") not in ("sig", "A") else None
        if t.get("lacks") in t["s"]:
            msgs = [zk.Secret() if i == t["lacks"] else m for i, m in zip(t["s"], msgs)]
        if t.get("lacks") == "A" and self.role == "p":
            return zk.BBSPlusSignatureStmt([zk.Secret(value=p["sig"].e), zk.Secret(value=p["sig"].s)] + msgs, p["kp"].pk, None)
        if t.get("bind", 1):
            return zk.BBSPlusSignatureStmt([zk.Secret(), zk.Secret()] + msgs, p["kp"].pk, sig, **self.simkw(t))
        return zk.BBSPlusSignatureStmt(msgs, p["kp"].pk, sig, binding=False, **self.simkw(t))

    def mk_X(self, t, key):
        p = self.env.leaf(key, t)
        if self.custom is None:
            self.custom = custom_cls(self.ctx)
        x = self.secret(t["s"][0], p["q"], t["s"][0] in self.known)
        return self.custom(p["lhs"], p["g0"], x, p["alt"], t.get("pre", "empty"), t.get("inner", "dl"))


    def mk_U(self, t, key):
        p = self.env.leaf(key, t)
        if self.user is None:
            self.user = user_classes(self.ctx)
        return self.user[t["u"]](p, *[self.secret(i, p["q"], i in self.known) for i in t["s"]])


# ------------------------------------------------------------------------- spec families
def shapes(n):
    """All and/or trees with n leaves where children alternate (nested same-kind via `nest`)."""
    if n == 1:
        return [None]
    out = []
    for part in partitions(n):
        for k in ("and", "or"):
            combos = [[]]
            for m in part:
                subs = shapes(m)
                combos = [c + [s] for c in combos for s in subs]
            for c in combos:
                out.append((k, c))
    return out


def partitions(n, lo=2):
    """Compositions of n into at least two parts."""
    def comp(r):
        if r == 0:
            return [[]]
        return [[f] + rest for f in range(1, r + 1) for rest in comp(r - f)]
    return [c for c in comp(n) if len(c) >= 2]


def fill(shape, leafs):
    it = iter(leafs)

    def go(s):
        if s is None:
            return next(it)
        return {"k": s[0], "c": [go(x) for x in s[1]]}
    return go(shape)


def in_or(shape, inside=False):
    """For each leaf, is it below an or-node?  (with the path of the nearest one)"""
    out = []

    def go(s, orpath, path):
        if s is None:
            out.append(orpath)
            return
        for n, c in enumerate(s[1]):
            p = path + (n,)
            go(c, (orpath + (p,)) if s[0] == "or" else orpath, p)
    go(shape, (), ())
    return out


def patterns(shape, n, limit_share=True):
    """Secret-index patterns respecting the composition rules (no secret both in and out of an
    or-branch below a conjunction)."""
    res = [list(range(n))]
    if n >= 2:
        for i in range(n):
            for j in range(i + 1, n):
                if compatible(shape, i, j):
                    p = list(range(n))
                    p[j] = i
                    res.append(p)
        if n >= 3 and all(compatible(shape, 0, j) for j in range(1, n)):
            res.append([0] * n)
    return res


def compatible(shape, i, j):
    """May leaves i and j share a secret?  Allowed unless some or-node contains exactly one of
    them, or both sit below a common or-node that itself ... (sharing across branches is fine as
    long as nothing outside that or uses the secret)."""
    chains = []

    def go(s, chain, path):
        if s is None:
            chains.append(chain)
            return
        for n, c in enumerate(s[1]):
            go(c, chain + [(s[0], path)], path + (n,))
    go(shape, [], ())
    a, b = chains[i], chains[j]
    ora = {p for k, p in a if k == "or"}
    orb = {p for k, p in b if k == "or"}
    if not any(k == "and" for k, p in a + b):
        return True
    return ora == orb
