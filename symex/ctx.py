"""Harness contexts: the same harness runs symbolically and, from a model, concretely."""

import hashlib as _hashlib
import importlib.util
import random as _random
import types

from . import loader
from .engine import (CheckFailed, EngineStop, Inconclusive, Path, PathInfeasible, SymBool, Unsupported,
                     as_formula, f_and, f_not, f_or, f_eval, T, F)
from .poly import Poly
from .stubs import World, build, BP_ORDER, CURVES, HexText, HashBytes, DoesNotEnd, MAX_PICKS

_spec = importlib.util.find_spec("petlib")
PACK = _spec.submodule_search_locations[0] + "/pack.py" if _spec else None


TEXT_MID = " middle " * 40


class Skip(EngineStop):
    """The harness finished this path early (nothing left to check)."""


class RealFailed(EngineStop):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class BaseCtx:
    def m(self, name):
        return self.reg.load(name)

    @property
    def zk(self):
        if self._zk is None:
            self._zk = ZK(self)
        return self._zk

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('exc', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:
            return "exc", e

    def accepts(self, fn, *a, **k):
        """Does a verification call accept?  Raising counts as rejecting."""
        try:
            return bool(fn(*a, **k))
        except Exception as e:
            self.last_exc = e
            return False

    def group(self, nid=713):
        return self.reg.load("petlib.ec").EcGroup(nid)

    def name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def all(self, conds):
        r = True
        for c in conds:
            r = r & c if not isinstance(r, bool) or not isinstance(c, bool) else (r and c)
        return r

    def any(self, conds):
        r = False
        for c in conds:
            r = r | c if not isinstance(r, bool) or not isinstance(c, bool) else (r or c)
        return r


class ZK:
    """Shortcuts to the public names of the library under test."""

    MAP = {
        "Secret": "zksk.expr", "wsum_secrets": "zksk.expr", "Expression": "zksk.expr",
        "update_secret_values": "zksk.expr",
        "DLRep": "zksk.primitives.dlrep", "DLNotEqual": "zksk.primitives.dl_notequal",
        "RangeStmt": "zksk.primitives.rangeproof", "RangeOnlyStmt": "zksk.primitives.rangeproof",
        "PowerTwoRangeStmt": "zksk.primitives.rangeproof",
        "decompose_into_n_bits": "zksk.primitives.rangeproof",
        "AndProofStmt": "zksk.composition", "OrProofStmt": "zksk.composition",
        "ExtendedProofStmt": "zksk.extended",
        "NIZK": "zksk.base", "build_fiat_shamir_challenge": "zksk.base",
        "SimulationTranscript": "zksk.base",
        "SigmaProtocol": "zksk.utils.debug",
        "BilinearGroupPair": "zksk.pairings", "G1Point": "zksk.pairings", "G2Point": "zksk.pairings",
        "AdditivePoint": "zksk.pairings",
        "BBSPlusKeypair": "zksk.primitives.bbsplus", "BBSPlusSignature": "zksk.primitives.bbsplus",
        "BBSPlusSignatureCreator": "zksk.primitives.bbsplus",
        "BBSPlusSignatureStmt": "zksk.primitives.bbsplus", "BBSPlusPublicKey": "zksk.primitives.bbsplus",
        "BBSPlusSecretKey": "zksk.primitives.bbsplus", "UserCommitmentMessage": "zksk.primitives.bbsplus",
        "make_generators": "zksk.utils", "get_random_num": "zksk.utils", "sum_bn_array": "zksk.utils",
        "ensure_bn": "zksk.utils", "get_random_point": "zksk.utils", "get_default_attr": "zksk.utils.misc",
    }

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, n):
        mod = self._ctx.m(self.MAP[n])
        return getattr(mod, n)


class Summaries:
    """Function summaries: proved on the current source first, used only when proved.

    AdditivePoint.__mul__ branches on `nb == 0`; the summary says that both branches give the
    point with nb times the discrete logarithm, so callers need not fork on it."""

    gt_mul = False


def _use_gt_mul(ctx, m):
    cls = m.AdditivePoint
    orig, rorig = cls.__mul__, cls.__rmul__
    world = ctx.world

    def wrap(f):
        def mul(self, nb):
            if type(nb).__name__ == "Bn" and hasattr(nb, "p") and not nb.p.is_const() and type(self) is cls \
                    and type(self.pt).__name__ == "GTElem":
                return cls(type(self.pt)._of(self.bp.bpgp, nb.p * self.pt.d), self.bp)
            return f(self, nb)
        return mul

    cls.__mul__, cls.__rmul__ = wrap(orig), wrap(rorig)


def gt_mul_lemma(ctx):
    """For every scalar and every GT point, both operand orders give the scaled point."""
    bp = ctx.zk.BilinearGroupPair()
    d = ctx.path.new_var("d", "dlog", 0, BP_ORDER - 1)
    gt = ctx.reg.load("bplib.bp").GTElem
    P = ctx.zk.AdditivePoint(gt._of(bp.bpgp, d), bp)
    k = ctx.int("k", -(1 << 600), 1 << 600)
    for r in (k * P, P * k):
        if type(r) is not ctx.zk.AdditivePoint or type(r.pt) is not gt or vars(r).keys() != vars(P).keys():
            ctx.fail("summary")
        if r.bp is not bp or r.group is not P.group or r.pt.group is not bp.bpgp:
            ctx.fail("summary")
        ctx.check(SymBool(ctx.path, ("eqm", r.pt.d - k.p * d, BP_ORDER)), "summary")
    ctx.check(SymBool(ctx.path, ("eqm", P.pt.d - d, BP_ORDER)), "summary")


class SymCtx(BaseCtx):
    mode = "sym"
    sym = True

    def __init__(self, path):
        self.path = path
        self.world = World(path)
        self.reg = self._registry(build(self.world))
        self.Bn = self.reg.load("petlib.bn").Bn
        self._zk = None
        self._names = {}
        self.observed = []
        self.last_exc = None
        self.checks = 0
        self.inputs = []
        self.pub = []

    def _registry(self, stubs):
        post = {"zksk.pairings": lambda m: _use_gt_mul(self, m)} if Summaries.gt_mul else None
        return loader.Registry(stubs, PACK, post=post)

    # ---- inputs
    def int(self, name, lo=None, hi=None, kind="input"):
        name = self.name(name)
        p = self.path.new_var(name, kind, lo, hi)
        self.inputs.append((name, p))
        return self.Bn._of(p)

    def scalar(self, name, q):
        return self.int(name, 0, int(q) - 1)

    def const(self, v):
        return self.Bn._of(Poly.const(int(v)))

    def point(self, name, group, inf=False):
        name = self.name(name)
        q = CURVES[group._nid][0]
        p = self.path.new_var(name, "dlog", 0 if inf else 1, q - 1)
        self.inputs.append((name, p))
        return self.reg.load("petlib.ec").EcPt._of(group, p)

    def bp_point(self, name, group, inf=False):
        """Arbitrary element of one of the wrapped pairing groups."""
        name = self.name(name)
        p = self.path.new_var(name, "dlog", 0 if inf else 1, BP_ORDER - 1)
        self.inputs.append((name, p))
        return self.Bn._of(p) * group.generator()

    def text(self, name):
        """A long string with an arbitrary beginning and end, of which only equality is observable."""
        out = []
        for part in ("a", "z"):
            n = self.name(name + part)
            p = self.path.new_var(n, "opaque", 0, 10 ** 6)
            self.inputs.append((n, p))
            out.append(self.world.token("O", p))
        return out[0] + TEXT_MID + out[1]

    def same_text(self, a, b):
        w = self.world
        return SymBool(self.path, w.seq_eq(w.segments(a.encode()), w.segments(b.encode())))

    def same_bytes(self, a, b):
        w = self.world
        return SymBool(self.path, w.seq_eq(w.segments(a), w.segments(b)))

    def choose(self, name, options):
        options = list(options)
        return options[self.path.choose(len(options), name)]

    def flag(self, name):
        return self.choose(name, [False, True])

    # ---- facts
    def assume(self, cond):
        self.path.assume(as_formula(cond))

    def check(self, cond, label):
        self.checks += 1
        self.path.stats.checks += 1
        f = as_formula(cond)
        if f == T:
            return
        r, env = self.path.prove(f)
        if r == "proved":
            self.path.add_fact(self.path.simplify(f))
            return
        if r == "refuted":
            raise CheckFailed(label, self.model(env))
        raise CheckFailed(label, None)

    def fail(self, label):
        """Reached a point that must be unreachable."""
        self.check(False, label)

    def observe(self, label, v):
        self.observed.append((label, v))

    def script(self, values):
        """The next Bn.random() calls return these values."""
        self.world.scripted = list(values)

    def draws(self):
        return [(n, self.Bn._of(p)) for n, p, _ in self.world.draws]

    def ndraws(self):
        return len(self.world.draws)

    @property
    def warnings(self):
        return self.world.warnings

    def new_process(self):
        """A fresh interpreter as seen by the library: new modules, new hash salt."""
        self.world.salt += 1
        st = build(self.world)
        self.reg = self._registry(st)
        self.Bn = st["petlib.bn"].Bn
        self._zk = None

    # ---- the random oracle
    def fork_oracle(self, k=0):
        """From here on the oracle answers afresh (also to queries made before)."""
        self.world.old_queries += self.world.queries
        self.world.queries = []

    def distinct_queries(self):
        """From here on oracle queries made from independent coins are taken to differ (they collide
        with negligible probability)."""
        self.world.distinct = True

    def guess(self, v):
        """v is fixed before any new query: a fresh answer equals it with negligible probability."""
        w = self.world
        w.guesses.append((w.hn, v.p))

    def last_query(self):
        return self.world.last_segs

    def digests(self):
        """The oracle answers that were read as numbers so far."""
        return [self.Bn._of(v) for _, v in self.path.hashes]

    def distinct_points(self):
        """Different strings hash to different points, other than the base points (they collide with
        negligible probability)."""
        self.world.distinct_points = True

    @property
    def tokens(self):
        """Sizes of the random strings drawn so far."""
        return self.world.token_sizes

    def digest_bits(self, x):
        """How many bits of an oracle answer x consists of (None: it is nothing of that kind)."""
        return 4 * (x.b - x.a) if isinstance(x, HexText) else 8 * (x.b - x.a) if isinstance(x, HashBytes) else None

    def same_query(self, a, b):
        return SymBool(self.path, self.world.seq_eq(a, b))

    def model(self, env):
        """Concrete values of everything a replay needs."""
        p = self.path
        return {
            "inputs": {n: po.eval(env) for n, po in self.inputs},
            "draws": [[n, po.eval(env), s] for n, po, s in self.world.draws],
            "choices": [v for _, v in p.choices],
            "hash": [[i, po.eval(env)] for i, po in p.hashes],
            "decisions": [t[0] if not isinstance(t[0], bool) else int(t[0]) for t in p.trace],
        }

    def path_model(self):
        env = self.path.find_model([], tries=12)
        return None if env is None else self.model(env)

    # ---- hiding: no linear combination of published numbers is free of the prover's coins
    def dlog(self, x):
        """Discrete logarithm of a group element, or a number itself."""
        if hasattr(x, "p"):
            return x.p
        return x.d if hasattr(x, "d") else x.pt.d

    def start_coins(self):
        """The prover's own coins are drawn from here on (replays keep earlier ones)."""
        return self.ndraws()

    def _dependent(self, polys, coin_vars, q):
        """The same question with factors that depend on public values and secrets: the published values are
        linear in (products of) coins; for fixed other values (chosen at random, so the verdict is that of the
        rational functions) their rows must be independent.  Returns positions of dependent ones or None.
        Exact elimination over the field finds the factors, z3 confirms them."""
        import z3
        if len(polys) < 2 or q < 2 or pow(2, q - 1, q) != 1:
            return None
        rnd, at = _random.Random(q), {}
        rows, mixed = [], False
        for p in polys:
            row = {}
            for mono, c in p.t.items():
                coin = tuple(i for i in mono if i in coin_vars)
                if not coin:
                    continue
                mixed = mixed or len(coin) < len(mono)
                for i in mono:
                    if i not in coin_vars:
                        c = c * at.setdefault(i, rnd.randrange(1, q)) % q
                row[coin] = (row.get(coin, 0) + c) % q
            rows.append({k: v for k, v in row.items() if v})
        if not mixed:
            return None
        basis = []
        for j, row in enumerate(rows):
            row, how = dict(row), {j: 1}
            for piv, brow, bhow in basis:
                f = row.get(piv, 0)
                if f:
                    for k, v in brow.items():
                        row[k] = (row.get(k, 0) - f * v) % q
                    for k, v in bhow.items():
                        how[k] = (how.get(k, 0) - f * v) % q
            row = {k: v for k, v in row.items() if v}
            if row:
                piv = min(row)
                inv = pow(row[piv], -1, q)
                basis.append((piv, {k: v * inv % q for k, v in row.items()}, {k: v * inv % q for k, v in how.items()}))
                continue
            how = {k: v for k, v in how.items() if v}
            s = z3.Solver()
            cols = {}
            for k, f in how.items():
                for m, v in rows[k].items():
                    cols.setdefault(m, []).append(z3.IntVal(f) * z3.IntVal(v))
            s.add(z3.Or([z3.Sum(c) % z3.IntVal(q) != 0 for c in cols.values()] + [z3.BoolVal(False)]))
            self.path.stats.queries += 1
            if s.check() == z3.unsat:
                self.path.stats.unsat += 1
                return sorted(how)
        return None

    def check_masked(self, published, coins, q, label):
        """Every published number (or point) stays independent: z3 looks for a nonzero vector lambda
        with sum(lambda_j * published_j) free of every coin (mod q).  Published are single values, or lists of
        values within which one value may be repeated."""
        import z3
        import time
        self.checks += 1
        self.path.stats.checks += 1
        q = int(q)
        coin_vars = set()
        for c in coins:
            nfp = c.p
            coin_vars.update(nfp.vars())
        polys, index, n = [], [], 0
        for group in published:
            # within an inner list the same value may occur several times
            seen = set()
            for x in group if isinstance(group, list) else [group]:
                p = self.path.nf(self.dlog(x), q)
                if p.key() not in seen:
                    seen.add(p.key())
                    polys.append(p)
                    index.append(n)
                n += 1
        cols = {}
        for j, p in enumerate(polys):
            for mono, c in p.t.items():
                if any(i in coin_vars for i in mono):
                    cols.setdefault(mono, {})[j] = c
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 20000)
        lam = [z3.Int("lam%d" % j) for j in range(len(polys))]
        for v in lam:
            s.add(v >= 0, v < z3.IntVal(q))
        s.add(z3.Or([v != 0 for v in lam]))
        for n, (mono, cc) in enumerate(sorted(cols.items())):
            k = z3.Int("q%d" % n)
            s.add(z3.Sum([z3.IntVal(c) * lam[j] for j, c in cc.items()]) == z3.IntVal(q) * k)
        t0 = time.time()
        r = s.check()
        st = self.path.stats
        st.solver_s += time.time() - t0
        st.queries += 1
        setattr(st, str(r), getattr(st, str(r)) + 1)
        if r == z3.unsat:
            dep = self._dependent(polys, coin_vars, q)
            if dep:
                env = self.path.find_model([])
                raise CheckFailed(label, None if env is None else self.model(env),
                                  {"rank": [index[j] for j in dep], "label": label, "q": q})
            return
        if r == z3.unknown:
            raise CheckFailed(label, None)
        md = s.model()
        lv = [md.eval(v, model_completion=True).as_long() for v in lam]
        env = self.path.find_model([])
        raise CheckFailed(label, None if env is None else self.model(env), {"lambda": lv, "index": index, "label": label, "q": q})


_HASH = {}


def _salted(salt):
    def salted(x):
        return hash((salt, x)) if isinstance(x, (bytes, str)) else hash(x)
    return salted


class RealCtx(BaseCtx):
    """Concrete replay against the real petlib/bplib and the real zksk sources."""

    mode = "real"
    sym = False

    def __init__(self, model, programmed=False, seed=7):
        import petlib.bn
        import petlib.ec
        import petlib
        import bplib
        import bplib.bp
        self.model = model
        self.programmed = programmed
        self._names = {}
        self._zk = None
        self.observed = []
        self.last_exc = None
        self._picks = 0
        self._ch = list(model.get("choices", []))
        self._dr = [d for d in model.get("draws", []) if not d[2]]
        self._scripted = []
        self._drawn = []
        self.rng = _random.Random(seed)
        self.in_rng = _random.Random(3)
        self.short, self.short_rng = None, _random.Random(5)
        self.fresh, self.other_rng, self.own_coins = False, _random.Random(9), None   # coins of others are kept
        self.flip, self.flip_rng = None, _random.Random(21)
        self._warn = []
        self.masked = {}
        self.deviated = False
        self.Bn = petlib.bn.Bn
        self._orig_random = None
        self._salt = 0
        self._tokens = []
        self._hq = {}
        self._hn = 0
        self._lastq = None
        self._hv = {i: v for i, v in model.get("hash", [])}
        self._real = {
            "petlib": types.ModuleType("petlib"), "petlib.bn": petlib.bn, "petlib.ec": petlib.ec,
            "bplib": bplib, "bplib.bp": bplib.bp,
        }
        self._real["petlib"].__path__ = []
        self._real["petlib"].bn = petlib.bn
        self._real["petlib"].ec = petlib.ec
        self._mkreg()

    def _mkreg(self):
        stubs = dict(self._real)
        stubs["hashlib"] = self._hashlib()
        stubs["random"] = self._random()
        sec = types.ModuleType("secrets")
        sec.__dict__.update({k: v for k, v in vars(__import__("secrets")).items() if not k.startswith("__")})

        def token_bytes(n=32):
            self._tokens.append(n)
            return __import__("secrets").token_bytes(n)
        sec.token_bytes = token_bytes
        sec.token_hex = lambda n=32: token_bytes(n).hex()
        stubs["secrets"] = sec
        w = types.ModuleType("warnings")
        w.warn = lambda message, *a, **k: self._warn.append(str(message))
        w.filterwarnings = w.simplefilter = lambda *a, **k: None
        stubs["warnings"] = w
        self.reg = loader.Registry(stubs, PACK)

    @property
    def warnings(self):
        return self._warn

    # ---- scripted environment
    def __enter__(self):
        Bn = self.Bn
        self._orig_random = Bn.random
        ctx = self

        def random(bn):
            n = int(bn)
            if ctx._scripted:
                v = ctx._scripted.pop(0)
                ctx._drawn.append((n, int(v)))
                return v if isinstance(v, Bn) else ctx.const(v)
            v = None
            if ctx._dr:
                d = ctx._dr.pop(0)
                if d[0] == n:
                    v = d[1]
                else:
                    ctx.deviated = True
            if v is None:
                if n <= 0:
                    return ctx._orig_random(bn)
                rng = ctx.short_rng if ctx.short and n < ctx.short else ctx.rng
                if ctx.fresh and ctx.own_coins is None:   # (harnesses that check masks call start_coins)
                    rng = ctx.other_rng
                v = rng.randrange(n)
                if len(ctx._drawn) == ctx.flip:
                    v = (v + 1 + ctx.flip_rng.randrange(n - 1)) % n if n > 1 else v
            ctx._drawn.append((n, v))
            return ctx.const(v)

        Bn.random = random
        return self

    def __exit__(self, *a):
        self.Bn.random = self._orig_random
        self._hashseed(0)
        return False

    def _random(self):
        ctx = self
        rnd = types.ModuleType("random")

        class SystemRandom:
            def __init__(self, *a):
                pass

            def seed(self, *a, **k):
                pass

            def _pick(self, n):
                ctx._picks += 1
                if ctx._picks > MAX_PICKS:
                    raise DoesNotEnd("more than %d draws from a random generator in one run" % MAX_PICKS)
                if n == 1:
                    if ctx._ch:
                        ctx._ch.pop(0)
                    return 0
                if ctx._ch:
                    v = ctx._ch.pop(0)
                    if v < n:
                        return v
                    ctx.deviated = True
                return ctx.rng.randrange(n)

            def choice(self, seq):
                seq = list(seq)
                if not seq:
                    raise IndexError("Cannot choose from an empty sequence")
                return seq[self._pick(len(seq))]

            def randrange(self, a, b=None, step=1):
                if b is None:
                    a, b = 0, a
                r = range(int(a), int(b), step)
                if len(r) == 0:
                    raise ValueError("empty range for randrange()")
                return r[self._pick(len(r))]

            def randint(self, a, b):
                return self.randrange(a, b + 1)

            def _randbelow(self, n):
                return self.randrange(n)

            def sample(self, seq, k):
                seq = list(seq)
                out = []
                for _ in range(k):
                    out.append(seq.pop(self._pick(len(seq))))
                return out

            def shuffle(self, seq):
                out = self.sample(seq, len(seq))
                seq[:] = out

        rnd.SystemRandom = rnd.Random = SystemRandom
        sr = SystemRandom()
        for nm in ("choice", "randrange", "randint", "sample", "shuffle"):
            setattr(rnd, nm, getattr(sr, nm))
        return rnd

    def _hashlib(self):
        if not self.programmed:
            return _hashlib
        ctx = self
        hl = types.ModuleType("hashlib")

        class Hash:
            def __init__(self, name, data=b""):
                self.name, self.buf = name, bytes(data)
                self.digest_size = _hashlib.new(name).digest_size

            def update(self, data):
                self.buf += bytes(data)

            def copy(self):
                return Hash(self.name, self.buf)

            def _val(self):
                k = (self.name, self.buf)
                ctx._lastq = self.buf
                if k not in ctx._hq:
                    i = ctx._hn if len(self.buf) != 8 else None
                    ctx._hn += i is not None
                    v = ctx._hv.get(i)
                    h = _hashlib.new(self.name, self.buf).digest()
                    if v is not None:
                        h = v.to_bytes(self.digest_size, "big")
                    ctx._hq[k] = h
                return ctx._hq[k]

            def digest(self):
                return self._val()

            def hexdigest(self):
                return self._val().hex()

        for nm in ("sha1", "sha224", "sha256", "sha384", "sha512", "md5", "sha3_256", "blake2b"):
            setattr(hl, nm, (lambda nm: lambda data=b"", **k: Hash(nm, data))(nm))
        hl.new = lambda name, data=b"", **k: Hash(name, data)
        return hl

    # ---- inputs
    def const(self, v):
        return self.Bn.from_decimal(str(int(v)))

    def _in(self, name, lo=None, hi=None):
        name = self.name(name)
        v = self.model["inputs"].get(name)
        if v is None:
            # the modelled path ended before this input was asked for: any value will do
            self.deviated = True
            lo = (-1000 if hi is None else min(hi, 0) - 1000) if lo is None else int(lo)
            v = self.in_rng.randint(lo, lo + 10 ** 6 if hi is None else int(hi))
        return v

    def int(self, name, lo=None, hi=None, kind="input"):
        return self.const(self._in(name, lo, hi))

    def scalar(self, name, q):
        return self.const(self._in(name, 0, int(q) - 1))

    def point(self, name, group, inf=False):
        return self.const(self._in(name, 0 if inf else 1, int(group.order()) - 1)) * group.generator()

    def bp_point(self, name, group, inf=False):
        return self.const(self._in(name, 0 if inf else 1, int(group.order()) - 1)) * group.generator()

    def text(self, name):
        return "text-%d%s%d-text" % (self._in(name + "a", 0, 10 ** 6), TEXT_MID, self._in(name + "z", 0, 10 ** 6))

    def same_text(self, a, b):
        return a == b

    def same_bytes(self, a, b):
        return a == b

    def choose(self, name, options):
        options = list(options)
        if self._ch:
            v = self._ch.pop(0)
        else:
            v = 0
            self.deviated = len(options) > 1
        return options[v if v < len(options) else 0]

    def flag(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if not bool(cond):
            raise PathInfeasible()

    def check(self, cond, label):
        if not bool(cond):
            raise RealFailed(label)

    def fail(self, label):
        raise RealFailed(label)

    def observe(self, label, v):
        self.observed.append((label, v))

    def script(self, values):
        self._scripted = list(values)

    def draws(self):
        return [(n, self.const(v)) for n, v in self._drawn]

    def ndraws(self):
        return len(self._drawn)

    def start_coins(self):
        self.own_coins = len(self._drawn)
        return self.own_coins

    def fork_oracle(self, k=0):
        self._hq = {}

    def guess(self, v):
        pass

    def distinct_queries(self):
        pass

    def last_query(self):
        return self._lastq

    def digests(self):
        return [self.const(int.from_bytes(h, "big")) for h in self._hq.values()] if self.programmed else None

    def distinct_points(self):
        pass

    @property
    def tokens(self):
        return self._tokens

    def digest_bits(self, x):
        return None

    def same_query(self, a, b):
        return a == b

    def new_process(self):
        self._mkreg()
        self._zk = None
        self._salt += 1
        self._hashseed(self._salt)

    def _hashseed(self, salt):
        """hash() of text and bytes differs between processes (PYTHONHASHSEED)."""
        for nm, cls in (("petlib.ec", "EcPt"), ("bplib.bp", "G1Elem"), ("bplib.bp", "G2Elem"), ("bplib.bp", "GTElem")):
            c = getattr(self._real[nm], cls)
            if c not in _HASH:
                _HASH[c] = c.__hash__
            c.__hash__ = (lambda f: lambda self: hash((salt, f(self))))(_HASH[c]) if salt else _HASH[c]
        if salt:
            self.reg.builtins["hash"] = _salted(salt)

    def check_masked(self, published, coins, q, label):
        """Replay of a masking failure: the combination found by the solver is a function of
        public data and secrets only, i.e. it does not change when the coins change."""
        info = self.model.get("info") or {}
        if info.get("label") == label and "rank" in info:
            pub = [x for g in published for x in (g if isinstance(g, list) else [g])]
            self.masked[label] = tuple(int(pub[i]) if type(pub[i]).__name__ == "Bn" else pub[i].export().hex() for i in info["rank"])
            return
        lam, idx = info.get("lambda"), info.get("index")
        if lam is None or info.get("label") != label:
            return
        pub = [x for g in published for x in (g if isinstance(g, list) else [g])]
        if all(type(pub[i]).__name__ == "Bn" for i in idx):
            self.masked[label] = (sum(l * int(pub[i]) for l, i in zip(lam, idx)) % int(q), int(q))
        elif not any(type(pub[i]).__name__ == "Bn" for i in idx):
            acc = None
            for l, i in zip(lam, idx):
                t = self.const(l) * pub[i]
                acc = t if acc is None else acc + t
            self.masked[label] = (acc.export().hex(), None)
