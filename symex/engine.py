"""Path-exploring symbolic executor: path conditions, z3 queries, counterexamples.

The real code runs on proxy numbers and proxy group elements.  Every branch on a
symbolic condition asks z3 which sides are feasible and the run is repeated for
each feasible side.  Assertions are discharged by z3 over the accumulated path
condition, for all values of the symbolic variables.

Encoding: nonlinear integer polynomials are linearised (one z3 Int per monomial);
defining equations (v = p mod m, v*a = 1 mod m, equalities assumed or branched on)
are multiplied by the monomials the query mentions, so that z3 sees every instance
the elimination needs.  `unsat` of that abstraction is `unsat` of the original; a
`sat` answer is only believed after an exact model has been found and replayed.
"""

import random as _random
import sys
import time

import z3

from .poly import Poly, mono_div


class EngineStop(BaseException):
    """Base of the engine's own signals (never caught by `except Exception`)."""


class PathInfeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class CheckFailed(EngineStop):
    def __init__(self, label, model, info=None):
        super().__init__(label)
        self.label, self.model, self.info = label, model, info


class Inconclusive(EngineStop):
    pass


T = ("T",)
F = ("F",)


def f_not(f):
    if f is T or f == T:
        return F
    if f == F:
        return T
    if f[0] == "not":
        return f[1]
    return ("not", f)


def f_and(fs):
    out = []
    for f in fs:
        if f == F:
            return F
        if f == T:
            continue
        out.append(f)
    if not out:
        return T
    return out[0] if len(out) == 1 else ("and", tuple(out))


def f_or(fs):
    return f_not(f_and([f_not(f) for f in fs]))


def f_key(f):
    k = f[0]
    if k in ("T", "F"):
        return f
    if k == "eqm":
        return ("eqm", f[1].key(), f[2])
    if k in ("eq", "le"):
        return (k, f[1].key())
    if k == "not":
        return ("not", f_key(f[1]))
    return (k, tuple(f_key(x) for x in f[1]))


def f_polys(f, out):
    k = f[0]
    if k in ("eqm", "eq", "le"):
        out.append(f[1])
    elif k == "not":
        f_polys(f[1], out)
    elif k in ("and", "or"):
        for x in f[1]:
            f_polys(x, out)
    return out


def f_eval(f, env):
    k = f[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "eqm":
        return f[1].eval(env, f[2]) == 0
    if k == "eq":
        return f[1].eval(env) == 0
    if k == "le":
        return f[1].eval(env) <= 0
    if k == "not":
        return not f_eval(f[1], env)
    if k == "and":
        return all(f_eval(x, env) for x in f[1])
    return any(f_eval(x, env) for x in f[1])


class Var:
    __slots__ = ("i", "name", "kind", "lo", "hi")

    def __init__(self, i, name, kind, lo, hi):
        self.i, self.name, self.kind, self.lo, self.hi = i, name, kind, lo, hi


# kinds: input, dlog, rand, hash, def, quot, opaque
FIX_ORDER = {"dlog": 0, "hash": 1, "rand": 2, "opaque": 2, "input": 3, "def": 5, "quot": 9}


class SymBool:
    """A condition over symbolic values; asking for its truth forks the path."""

    __slots__ = ("path", "f")

    def __init__(self, path, f):
        self.path, self.f = path, f

    def __bool__(self):
        return self.path.decide(self.f)

    def __and__(self, o):
        return SymBool(self.path, f_and([self.f, as_formula(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(self.path, f_or([self.f, as_formula(o)]))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(self.path, f_not(self.f))

    def __eq__(self, o):
        if isinstance(o, (bool, int)):
            return bool(self) == o
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return repr(bool(self))


def _bool_op(nm):
    def op(self, *a):
        return getattr(bool(self), nm)(*(bool(x) if isinstance(x, SymBool) else x for x in a))
    op.__name__ = nm
    return op


for _nm in ("add", "sub", "mul", "floordiv", "truediv", "mod", "pow", "lshift", "rshift"):
    for _pre in ("__", "__r"):
        setattr(SymBool, _pre + _nm + "__", _bool_op(_pre + _nm + "__"))
for _nm in ("__xor__", "__rxor__", "__lt__", "__le__", "__gt__", "__ge__", "__neg__", "__pos__", "__abs__", "__float__"):
    setattr(SymBool, _nm, _bool_op(_nm))


def as_formula(c):
    if isinstance(c, SymBool):
        return c.f
    return T if c else F


class Stats:
    def __init__(self):
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.pruned = 0
        self.branches = 0
        self.forks = 0
        self.replays = 0
        self.replay_skipped = 0
        self.rows = 0
        self.confirmed = 0
        self.rewriter_only = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k, 0) + v)

    def dict(self):
        return dict(self.__dict__)


class Path:
    """One execution path: variables, defining rows, path condition, decision trace."""

    QUERY_MS = 20000

    def __init__(self, trace, stats, seed=1):
        self.trace = trace          # list of [value, remaining alternatives]
        self.pos = 0
        self.stats = stats
        self.vars = []
        self.rows = []              # (lead monomial, exact equation poly == 0, modulus|None)
        self.rules = {}             # modulus|None -> list of (lead, replacement)
        self.rule_by_var = {}       # (modulus, var) -> replacement for degree-1 leads
        self.pc = []                # formulas that are not rows
        self.known = {}
        self.rng = _random.Random(seed)
        self.mods = {}
        self.floor_row = {}
        self.invs = {}
        self.inputs = []            # (name, var index, kind) in creation order
        self.draws = []             # values handed out by Bn.random (Poly), with bounds
        self.hashes = []            # var index of each programmed hash number
        self.choices = []           # recorded harness/library choices
        self.notes = []
        self.failed = []
        self.fields = set()         # prime moduli (group orders)

    # -- variables ---------------------------------------------------------
    def new_var(self, name, kind, lo=None, hi=None):
        v = Var(len(self.vars), name, kind, lo, hi)
        self.vars.append(v)
        return Poly.var(v.i)

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            a, b = 1, 1
            for i in m:
                v = self.vars[i]
                if v.lo is None or v.hi is None:
                    if v.lo is not None and v.lo >= 0 and a is not None and a >= 0 and (b is None or b >= 0):
                        a, b = a * v.lo, None
                        continue
                    a = b = None
                    break
                if a is None and b is None:
                    break
                if b is None:
                    if v.lo >= 0 and a >= 0:
                        a = a * v.lo
                        continue
                    a = None
                    break
                cs = (a * v.lo, a * v.hi, b * v.lo, b * v.hi)
                a, b = min(cs), max(cs)
            if c < 0:
                a, b = b, a
            a = None if a is None else a * c
            b = None if b is None else b * c
            lo = None if (lo is None or a is None) else lo + a
            hi = None if (hi is None or b is None) else hi + b
            if lo is None and hi is None:
                return None, None
        return lo, hi

    # -- modular arithmetic --------------------------------------------------
    def p_mod(self, p, m):
        """p mod m in [0, m)."""
        if p.is_const():
            return Poly.const(p.const_val() % m)
        lo, hi = self.bounds(p)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return p
        red = p.mod(m)
        if red.is_const():
            return Poly.const(red.const_val() % m)
        lo, hi = self.bounds(red)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return red
        k = (red.key(), m)
        r = self.mods.get(k)
        if r is None:
            r = self.new_var("r%d" % len(self.vars), "def", 0, m - 1)
            qv = self.new_var("k%d" % len(self.vars), "quot")
            lead = next(iter(r.t))
            self.rows.append((lead, r - red + qv.scale(m), m))
            self._add_rule(m, lead, red)
            self.mods[k] = r
        return r

    def p_inv(self, p, m):
        """A value v in [0,m) with v*p = 1 mod m (caller established p != 0 mod m)."""
        p = self.nf(p, m)           # products with the inverse are met in normal form only
        if p.is_const():
            return Poly.const(pow(p.const_val() % m, -1, m))
        k = (p.key(), m)
        if k in self.invs:
            return self.invs[k]
        v = self.new_var("inv%d" % len(self.vars), "def", 1, m - 1)
        qv = self.new_var("k%d" % len(self.vars), "quot")
        vi = next(iter(v.t))[0]
        lead, coef = None, None
        for mono, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0])):
            if c in (1, -1) and mono:
                lead, coef = tuple(sorted(mono + (vi,))), c
                break
        if lead is None:
            # scale so that some non constant monomial has coefficient one
            mono, c = max((x for x in p.t.items() if x[0]), key=lambda x: len(x[0]))
            ic = pow(c % m, -1, m)
            lead, coef = tuple(sorted(mono + (vi,))), None
        eq = p * v - Poly.const(1)
        self.rows.append((lead, eq - qv.scale(m), m))
        if coef is None:
            eq2 = eq.scale(ic).mod(m)
        else:
            eq2 = eq.scale(coef)
        repl = Poly({lead: 1}) - eq2
        self._add_rule(m, lead, repl.mod(m))
        self.inv_of = getattr(self, "inv_of", {})
        self.inv_of[vi] = (p, m)
        self.invs[k] = v
        return v

    def p_divmod(self, p, m):
        """floor division by a positive constant."""
        if p.is_const():
            a, b = divmod(p.const_val(), m)
            return Poly.const(a), Poly.const(b)
        k = ("dm", p.key(), m)
        if k in self.mods:
            return self.mods[k]
        lo, hi = self.bounds(p)
        r = self.new_var("r%d" % len(self.vars), "def", 0, m - 1)
        d = self.new_var("d%d" % len(self.vars), "def",
                         None if lo is None else lo // m, None if hi is None else hi // m)
        lead = next(iter(r.t))
        self.floor_row[next(iter(d.t))[0]] = len(self.rows)
        self.rows.append((lead, r - p + d.scale(m), None))
        self._add_rule(None, lead, p - d.scale(m))
        self.mods[k] = (d, r)
        return d, r

    def _add_rule(self, m, lead, repl):
        if len(lead) == 1:
            self.rule_by_var[(m, lead[0])] = repl
        else:
            self.rules.setdefault(m, []).append((lead, repl))

    def nf(self, p, m):
        """Normal form modulo m under the defining equations (an encoder simplification)."""
        for _ in range(60):
            changed = False
            out = Poly()
            for mono, c in p.t.items():
                repl = None
                for i in mono:
                    repl = self.rule_by_var.get((m, i))
                    if repl is None:
                        repl = self.rule_by_var.get((None, i))
                    if repl is not None:
                        rest = mono_div(mono, (i,))
                        break
                if repl is None and len(mono) > 1:
                    for key in (m, None):
                        for lead, rp in self.rules.get(key, ()):
                            rest = mono_div(mono, lead)
                            if rest is not None:
                                repl = rp
                                break
                        if repl is not None:
                            break
                if repl is None:
                    v = out.t.get(mono, 0) + c
                    if v:
                        out.t[mono] = v
                    else:
                        out.t.pop(mono, None)
                else:
                    changed = True
                    out = out + repl.mul_mono(rest).scale(c)
            p = out.mod(m)
            if not changed:
                return p
            if len(p.t) > 4000:
                return p
        return p

    # -- formulas --------------------------------------------------------------
    def simplify(self, f):
        k = f[0]
        if k in ("T", "F"):
            return f
        if k == "not":
            return f_not(self.simplify(f[1]))
        if k == "and":
            return f_and([self.simplify(x) for x in f[1]])
        if k == "or":
            return f_or([self.simplify(x) for x in f[1]])
        p = f[1]
        if k == "eqm":
            m = f[2]
            if p.is_const():
                return T if p.const_val() % m == 0 else F
            p = self.nf(p, m)
            if p.is_const():
                return T if p.const_val() % m == 0 else F
            p = self._strip(p, m)
            if p.is_const():
                return T if p.const_val() % m == 0 else F
            lo, hi = self.bounds(p)
            if lo is not None and hi is not None and (lo > 0 or hi < 0) and -m < lo and hi < m:
                return F
            return ("eqm", p, m)
        if p.is_const():
            c = p.const_val()
            return T if (c == 0 if k == "eq" else c <= 0) else F
        lo, hi = self.bounds(p)
        if k == "eq":
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return F
            return f
        if hi is not None and hi <= 0:
            return T
        if lo is not None and lo > 0:
            return F
        return f

    def _unit(self, p, m):
        """Is p certainly not zero modulo the prime m?"""
        if p.is_const():
            return p.const_val() % m != 0
        lo, hi = self.bounds(p)
        if lo is not None and hi is not None and (lo > 0 or hi < 0) and -m < lo and hi < m:
            return True
        return self.known.get(f_key(("eqm", p, m))) is False

    def _strip(self, p, m):
        """Divide out common variable factors that are units modulo the prime m."""
        if m not in self.fields:
            return p
        it = iter(p.t)
        common = set(next(it))
        for mono in it:
            common &= set(mono)
            if not common:
                return p
        for i in common:
            while all(i in mono for mono in p.t) and self._unit(Poly.var(i), m):
                p = Poly({mono_div(mono, (i,)): c for mono, c in p.t.items()})
        return p

    def add_fact(self, f):
        """Add f to the path condition."""
        if f == T:
            return
        if f[0] == "and":
            for x in f[1]:
                self.add_fact(x)
            return
        self.known[f_key(f)] = True
        self.known[f_key(f_not(f))] = False
        if f[0] == "eqm":
            m = f[2]
            p = self.nf(f[1], m)
            if p.is_const():
                if p.const_val() % m:
                    self.pc.append(F)
                return
            p = self._strip(p, m)
            if m in self.fields and 2 <= p.deg() and len(p.t) <= 24:
                facs = factor_poly(p, m)
                if len(facs) > 1:
                    rest = [x for x in facs if not self._unit(x, m)]
                    if len(rest) == 1:
                        p = self.nf(rest[0].mod(m), m)
                    elif rest:
                        self.pc.append(("or", tuple(("eqm", x, m) for x in rest)))
            if p.is_const():
                if p.const_val() % m:
                    self.pc.append(F)
                return
            lead, c = self._pick_lead(p, m)
            qv = self.new_var("k%d" % len(self.vars), "quot")
            ic = pow(c % m, -1, m)
            pn = p.scale(ic).mod(m) if c not in (1, -1) else p.scale(c)
            self.rows.append((lead, pn - qv.scale(m), m))
            self._add_rule(m, lead, (Poly({lead: 1}) - pn).mod(m))
            self._interreduce(m, lead)
            return
        if f[0] == "eq":
            p = f[1]
            lead, c = self._pick_lead(p, None)
            self.rows.append((lead, p, None))
            if c in (1, -1):
                repl = Poly({lead: 1}) - p.scale(c)
                if not any(set(lead) & set(m) for m in repl.t) and not self._defined(lead, repl):
                    self._add_rule(None, lead, repl)
            self.pc.append(f)
            return
        self.pc.append(f)

    def _defined(self, lead, repl):
        """Would `lead -> repl` loop with the existing rules?"""
        seen, todo = set(), list(repl.vars())
        while todo:
            i = todo.pop()
            if i in lead:
                return True
            if i in seen:
                continue
            seen.add(i)
            for (m, v), r in self.rule_by_var.items():
                if v == i:
                    todo.extend(r.vars())
        return len(lead) == 1 and any(v == lead[0] for (_, v) in self.rule_by_var)

    def _interreduce(self, m, lead):
        """Drop rules whose replacement now loops through the new lead."""
        if len(lead) != 1:
            return
        for (mm, v), r in list(self.rule_by_var.items()):
            if mm == m and v != lead[0] and lead[0] in r.vars():
                self.rule_by_var[(mm, v)] = self._subst(r, lead[0], self.rule_by_var[(m, lead[0])], m)

    @staticmethod
    def _subst(p, i, repl, m):
        out = Poly()
        for mono, c in p.t.items():
            cur = Poly({tuple(x for x in mono if x != i): c})
            for _ in range(mono.count(i)):
                cur = cur * repl
            out = out + cur
        return out.mod(m)

    def _pick_lead(self, p, m):
        cands = []
        for mono, c in p.t.items():
            if len(mono) == 1:
                i = mono[0]
                if all(i not in mm for mm in p.t if mm != mono):
                    k = self.vars[i].kind
                    pref = {"dlog": 0, "input": 1, "rand": 2, "def": 4, "hash": 5, "opaque": 5, "quot": 9}[k]
                    cands.append((0 if c in (1, -1) else 1, pref, -i, mono, c))
        if cands:
            b = min(cands)
            return b[3], b[4]
        best = None
        for mono, c in p.t.items():
            if not mono:
                continue
            k = (len(mono), 1 if c in (1, -1) else 0, mono)
            if best is None or k > best[0]:
                best = (k, mono, c)
        return best[1], best[2]

    # -- z3 ---------------------------------------------------------------------
    class _Enc:
        def __init__(self, path):
            self.path = path
            self.mv = {}
            self.mods = {}
            self.side = []
            self.n = 0

        def mono(self, m):
            v = self.mv.get(m)
            if v is None:
                v = z3.Int("m" + "_".join(map(str, m)))
                self.mv[m] = v
            return v

        def poly(self, p):
            args = []
            for m, c in p.t.items():
                if not m:
                    args.append(z3.IntVal(c))
                elif c == 1:
                    args.append(self.mono(m))
                else:
                    args.append(z3.IntVal(c) * self.mono(m))
            if not args:
                return z3.IntVal(0)
            return args[0] if len(args) == 1 else z3.Sum(args)

        def formula(self, f):
            k = f[0]
            if k == "T":
                return z3.BoolVal(True)
            if k == "F":
                return z3.BoolVal(False)
            if k == "not":
                return z3.Not(self.formula(f[1]))
            if k == "and":
                return z3.And([self.formula(x) for x in f[1]])
            if k == "or":
                return z3.Or([self.formula(x) for x in f[1]])
            if k == "eq":
                return self.poly(f[1]) == 0
            if k == "le":
                return self.poly(f[1]) <= 0
            key = (f[1].key(), f[2])
            r = self.mods.get(key)
            if r is None:
                self.n += 1
                r = z3.Int("rem%d" % self.n)
                kk = z3.Int("quo%d" % self.n)
                self.side.append(self.poly(f[1]) == r + z3.IntVal(f[2]) * kk)
                self.side.append(r >= 0)
                self.side.append(r < z3.IntVal(f[2]))
                self.mods[key] = r
            return r == 0

    def _query(self, formulas, expand_all=False, lemmas=False, max_rows=3000, timeout=None, core=False):
        """z3 verdict on pc & rows & formulas under the monomial abstraction.  core: leave out the facts
        about other variables (enough when the verdict is unsat)."""
        enc = Path._Enc(self)
        pc = self.pc
        if core:
            vs = self._vars_of(formulas)
            pc = [x for x in pc if x == F or self._vars_of([x]) <= vs]
        fs = [x for x in pc] + list(formulas)
        if F in fs:
            return "unsat", None, enc
        polys = []
        for x in fs:
            f_polys(x, polys)
        if lemmas:
            extra = self._domain_lemmas(fs)
            for x in extra:
                f_polys(x, polys)
            fs += extra
        seen = set()
        todo = []
        for p in polys:
            for m in p.t:
                if m and m not in seen:
                    seen.add(m)
                    todo.append(m)
        used = set()
        rows = []
        # integer facts about plain variables: their own defining rows matter too
        while todo:
            mono = todo.pop()
            if len(mono) == 1 and mono[0] in self.floor_row:
                ri = self.floor_row[mono[0]]
                if (ri, ()) not in used:
                    used.add((ri, ()))
                    row = self.rows[ri][1]
                    rows.append(row)
                    for mm in row.t:
                        if mm and mm not in seen:
                            seen.add(mm)
                            todo.append(mm)
            for ri, (lead, eq, m) in enumerate(self.rows):
                rest = mono_div(mono, lead)
                if rest is None:
                    continue
                if rest and m is not None and not expand_all and m not in self.fields:
                    continue
                if (ri, rest) in used:
                    continue
                used.add((ri, rest))
                row = eq.mul_mono(rest)
                rows.append(row)
                for mm in row.t:
                    if mm and mm not in seen:
                        seen.add(mm)
                        todo.append(mm)
                if len(rows) > max_rows:
                    return "unknown", None, enc
                if rest:
                    break
        # rows whose variables all occur (equalities between inputs)
        for ri, (lead, eq, m) in enumerate(self.rows):
            if (ri, ()) not in used and all((mm in seen or not mm or self._is_quot(mm)) for mm in eq.t):
                used.add((ri, ()))
                rows.append(eq)
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout or self.QUERY_MS)
        for row in rows:
            s.add(enc.poly(row) == 0)
        for x in fs:
            s.add(enc.formula(x))
        for x in enc.side:
            s.add(x)
        for mono, zv in enc.mv.items():
            lo, hi = self.bounds(Poly({mono: 1}))
            if lo is not None:
                s.add(zv >= z3.IntVal(lo))
            if hi is not None:
                s.add(zv <= z3.IntVal(hi))
        t0 = time.time()
        r = str(s.check())
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        self.stats.rows += len(rows)
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, (s.model() if r == "sat" else None), enc

    @staticmethod
    def _vars_of(formulas):
        ps = []
        for f in formulas:
            f_polys(f, ps)
        return {i for p in ps for i in p.vars()}

    def _is_quot(self, mono):
        return len(mono) == 1 and self.vars[mono[0]].kind == "quot"

    def _domain_lemmas(self, fs):
        """Integral-domain instances: a product is zero mod a prime only if a factor is."""
        atoms = {}
        for x in fs:
            _f_eqms(x, atoms)
        out = []
        for (_, m), a in list(atoms.items()):
            p = self.nf(a[1], m)
            if p.is_const() or p.deg() < 2:
                if p.key() != a[1].key():
                    out.append(("and", (("or", (f_not(a), ("eqm", p, m))), ("or", (a, f_not(("eqm", p, m)))))))
                continue
            if a[1].deg() >= 2 and p.key() != a[1].key():
                raw = factor_poly(a[1].mod(m), m)
                if len(raw) > 1:
                    e = f_or([("eqm", q, m) for q in raw])
                    out.append(("and", (("or", (f_not(a), e)), ("or", (a, f_not(e))))))
            facs = factor_poly(p, m)
            if len(facs) > 1 or p.key() != a[1].key():
                e = f_or([("eqm", q, m) for q in facs])
                out.append(("and", (("or", (f_not(a), e)), ("or", (a, f_not(e))))))
        return out

    def feasible(self, f):
        """False only when z3 proves pc & f unsatisfiable."""
        if len(self.pc) > 20 and self._query([f], core=True, timeout=1000)[0] == "unsat":
            return False
        r, _, _ = self._query([f], timeout=3000)
        if r == "unsat":
            return False
        if _has_field_product(self, [f]):
            r, _, _ = self._query([f], lemmas=True, timeout=3000)
            if r == "unsat":
                return False
        return True

    # -- decisions -----------------------------------------------------------
    def decide(self, f):
        f0 = f
        f = self.simplify(f)
        if f == T or f == F:
            if f0 != f:
                self._confirm(f0 if f == F else f_not(f0))
            return f == T
        k = self.known.get(f_key(f))
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            ft = self.feasible(f)
            ff = self.feasible(f_not(f)) if ft else True
            if ft and ff:
                self.trace.append([True, [False]])
                self.stats.forks += 1
            else:
                self.trace.append([ft, []])
            v = self.trace[self.pos][0]
        self.pos += 1
        self.add_fact(f if v else f_not(f))
        return v

    def _confirm(self, neg):
        """The rewriter settled a branch; have the solver refute the other side."""
        if self.pos < len(self.trace):
            return
        ps = []
        f_polys(neg, ps)
        if all(p.is_const() for p in ps):
            return
        k = ("confirm", f_key(neg))
        if k in self.known:
            return
        r = "unknown"
        if len(self.pc) > 20:
            r, _, _ = self._query([neg], core=True, timeout=1000)
        if r != "unsat":
            r, _, _ = self._query([neg], timeout=3000)
        if r != "unsat":
            r, _, _ = self._query([neg], expand_all=True, lemmas=True, timeout=3000)
        self.known[k] = r == "unsat"
        if r == "unsat":
            self.stats.confirmed += 1
        else:
            self.stats.rewriter_only += 1

    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives; all are explored."""
        if n == 1:
            v = 0
        elif self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
        else:
            self.trace.append([0, list(range(1, n))])
            self.stats.forks += 1
            v = 0
            self.pos += 1
        self.choices.append((label, v))
        return v

    def assume(self, f):
        f = self.simplify(f)
        if f == F:
            raise PathInfeasible()
        if f == T:
            return
        k = self.known.get(f_key(f))
        if k is True:
            return
        if k is False:
            raise PathInfeasible()
        if self.pos >= len(self.trace) and not self.feasible(f):
            raise PathInfeasible()
        self.add_fact(f)

    # -- proving ---------------------------------------------------------------
    def prove(self, f):
        """'proved', or a model refuting f on this path, or 'unknown'."""
        neg = f_not(f)
        if len(self.pc) > 20 and self._query([neg], core=True, timeout=1000)[0] == "unsat":
            return "proved", None
        tries = [(neg, False, False, 2500), (f_not(self.simplify(f)), False, True, 4000), (neg, True, True, 10000),
                 (f_not(self.simplify(f)), False, True, self.QUERY_MS), (neg, True, True, 40000)]
        last = None
        for g, ex, lm, ms in tries:
            if last == "sat" and ms >= self.QUERY_MS:
                break
            last, _, _ = self._query([g], expand_all=ex, lemmas=lm, timeout=ms)
            if last == "unsat":
                return "proved", None
        if self._collapsed():
            return "proved", None
        env = self.find_model([neg])
        if env is not None:
            return "refuted", env
        return "unknown", None

    def _collapsed(self):
        """Do later equations force a variable with a nonzero domain to be zero?  (Then the path is
        infeasible; z3 confirms.)"""
        for (m, i) in list(self.rule_by_var):
            v = self.vars[i]
            if m is None or v.lo is None or v.hi is None or v.lo <= 0 or v.hi >= m:
                continue
            p = self.nf(Poly.var(i), m)
            if p.is_const() and p.const_val() % m == 0:
                a = ("eqm", Poly.var(i), m)
                if self._query([f_not(a)], expand_all=True)[0] == "unsat":
                    self.pc.append(a)
                    if self._query([], expand_all=True)[0] == "unsat":
                        return True
        return False

    # -- exact models ------------------------------------------------------------
    def check_env(self, env, formulas):
        for lead, eq, m in self.rows:
            if m is not None:
                # the quotient variable makes the row exact
                if eq.eval(env) != 0:
                    return False
            elif eq.eval(env) != 0:
                return False
        for v in self.vars:
            x = env[v.i]
            if (v.lo is not None and x < v.lo) or (v.hi is not None and x > v.hi):
                return False
        return all(f_eval(f, env) for f in self.pc) and all(f_eval(f, env) for f in formulas)

    def find_model(self, formulas, tries=24):
        for a in range(tries):
            env = self._model_eval(a, formulas)
            if env is not None:
                return env
        for a in range(12):
            env = self._model_gauss(a, formulas)
            if env is not None:
                return env
        for a in range(3):
            env = self._model_solve(a, formulas)
            if env is not None:
                return env
        return None

    def _model_gauss(self, a, formulas):
        """Fix enough variables at random to make the field equations linear, eliminate, check exactly."""
        eqs = []
        defs = {}
        for lead, eq, m in self.rows:
            if m is not None:
                eq = Poly({k: c for k, c in eq.t.items() if not self._is_quot(k)})
                if len(lead) == 1 and self.vars[lead[0]].kind == "def" and m not in self.fields:
                    continue
                if m in self.fields:
                    eqs.append((eq, m))
        for f in formulas:
            if f[0] == "eqm" and f[2] in self.fields:
                eqs.append((f[1], f[2]))
            elif f[0] == "not" and f[1][0] == "or":
                pass
        if not eqs:
            return None
        skip = set()
        for (m, v), r in self.rule_by_var.items():
            if m not in self.fields or self.vars[v].kind == "def":
                skip.add(v)
        # expand defined variables (single-variable rules) so that only free ones remain
        free_eqs = []
        for eq, m in eqs:
            p = eq.mod(m)
            for _ in range(30):
                hit = [v for v in p.vars() if v in skip and ((m, v) in self.rule_by_var or (None, v) in self.rule_by_var)]
                if not hit:
                    break
                for v in hit:
                    r = self.rule_by_var.get((m, v))
                    if r is None:
                        r = self.rule_by_var.get((None, v))
                    p = self._subst(p, v, r, m)
                if len(p.t) > 3000:
                    return None
            if not p.is_const():
                free_eqs.append((p, m))
            elif p.const_val() % m:
                return None
        fixed = {}

        def width(i):
            v = self.vars[i]
            return 1 << 600 if v.lo is None or v.hi is None else v.hi - v.lo + 1

        monos = set()
        for p, m in free_eqs:
            monos.update(k for k in p.t if len(k) > 1)
        for p, m in free_eqs:
            for i in p.vars():
                if width(i) < m and i not in fixed:
                    fixed[i] = self._sample(self.vars[i], a + 1)
        for m in sorted(monos):
            un = [i for i in m if i not in fixed]
            while len(un) > 1 or (len(un) == 1 and m.count(un[0]) > 1):
                un.sort(key=lambda i: (FIX_ORDER[self.vars[i].kind], i if a % 2 == 0 else -i))
                fixed[un[0]] = self._sample(self.vars[un[0]], a + 1)
                un = [i for i in m if i not in fixed]
        moduli = sorted({m for _, m in free_eqs})
        for q in moduli:
            rows = []
            for p, m in free_eqs:
                if m != q:
                    continue
                row, c0 = {}, 0
                for mono, c in p.t.items():
                    un = None
                    for i in mono:
                        if i in fixed:
                            c = c * fixed[i] % q
                        else:
                            un = i
                    if un is None:
                        c0 += c
                    else:
                        row[un] = (row.get(un, 0) + c) % q
                rows.append(({k: v for k, v in row.items() if v}, c0 % q))
            piv = []
            for row, c0 in rows:
                row = dict(row)
                for v, prow, pc in piv:
                    k = row.pop(v, 0)
                    if k:
                        for u, x in prow.items():
                            row[u] = (row.get(u, 0) - k * x) % q
                        c0 = (c0 - k * pc) % q
                        row = {u: x for u, x in row.items() if x}
                if not row:
                    if c0:
                        return None
                    continue
                cand = sorted(row, key=lambda i: (-width(i), i if a % 3 else -i))
                v = cand[0]
                inv = pow(row[v], -1, q)
                prow = {u: x * inv % q for u, x in row.items() if u != v}
                pc = c0 * inv % q
                new = []
                for v2, r2, c2 in piv:
                    k = r2.pop(v, 0)
                    if k:
                        for u, x in prow.items():
                            r2[u] = (r2.get(u, 0) - k * x) % q
                        c2 = (c2 - k * pc) % q
                        r2 = {u: x for u, x in r2.items() if x}
                    new.append((v2, r2, c2))
                piv = new + [(v, prow, pc)]
            for v, prow, pc in piv:
                for u in prow:
                    if u not in fixed:
                        fixed[u] = self._sample(self.vars[u], a + 1)
            for v, prow, pc in piv:
                x = (-pc - sum(k * fixed[u] for u, k in prow.items())) % q
                vr = self.vars[v]
                if vr.lo is not None and x < vr.lo:
                    x += q
                fixed[v] = x
        return self._model_eval(a, formulas, fixed)

    def _sample(self, v, a):
        lo = v.lo if v.lo is not None else -(1 << 64)
        hi = v.hi if v.hi is not None else (1 << 64)
        n = hi - lo + 1
        mode = a % 4
        if n <= 64 or mode == 0:
            return lo + self.rng.randrange(n)
        if mode == 1:
            return min(hi, max(lo, self.rng.randrange(1, 1 << 30)))
        if mode == 2:
            base = self.rng.choice([lo, hi, max(lo, 0)])
            return min(hi, max(lo, base + self.rng.randrange(-3, 4)))
        return lo + self.rng.randrange(n)

    def _model_eval(self, a, formulas, given=None):
        """Sample free variables, evaluate defined ones through the rules, check exactly."""
        env = dict(given) if given else {}
        order = {}
        leads = {}
        for (m, v), r in self.rule_by_var.items():
            leads.setdefault(v, (m, r))
        state = {}

        def value(i):
            if i in env:
                return env[i]
            if state.get(i):
                raise RecursionError
            state[i] = 1
            v = self.vars[i]
            if i in leads:
                m, r = leads[i]
                for j in r.vars():
                    value(j)
                x = r.eval(env, m) if m is not None else r.eval(env)
                env[i] = x
            elif i in getattr(self, "inv_of", {}):
                p, m = self.inv_of[i]
                for j in p.vars():
                    value(j)
                d = p.eval(env, m)
                env[i] = pow(d, -1, m) if d else 1
            elif v.kind == "quot":
                env[i] = None
            else:
                env[i] = self._sample(v, a if v.kind != "dlog" else 0)
            return env[i]

        try:
            for v in self.vars:
                if v.kind != "quot":
                    value(v.i)
        except RecursionError:
            return None
        # quotients from rows
        for lead, eq, m in self.rows:
            qs = [mm[0] for mm in eq.t if self._is_quot(mm)]
            for qi in qs:
                if env.get(qi) is None:
                    c = eq.t[(qi,)]
                    rest = Poly({k: v for k, v in eq.t.items() if k != (qi,)})
                    if any(env.get(j) is None for j in rest.vars()):
                        return None
                    x = -rest.eval(env)
                    if x % c:
                        return None
                    env[qi] = x // c
        for v in self.vars:
            if env.get(v.i) is None:
                env[v.i] = 0
        return env if self.check_env(env, formulas) else None

    def _model_solve(self, a, formulas):
        """Fix enough variables to make everything linear and let z3 solve the rest."""
        fs = list(self.pc) + list(formulas)
        polys = [eq for _, eq, _ in self.rows]
        for f in fs:
            f_polys(f, polys)
        monos = set()
        for p in polys:
            monos.update(m for m in p.t if len(m) > 1)
        fixed = {}
        changed = True
        while changed:
            changed = False
            for m in sorted(monos):
                un = [i for i in m if i not in fixed]
                if len(un) < 2:
                    continue
                un.sort(key=lambda i: (FIX_ORDER[self.vars[i].kind], i if a % 2 == 0 else -i))
                fixed[un[0]] = self._sample(self.vars[un[0]], a + 1)
                changed = True

        def lin(p):
            t = {}
            for m, c in p.t.items():
                rest = []
                for i in m:
                    if i in fixed:
                        c *= fixed[i]
                    else:
                        rest.append(i)
                k = tuple(rest)
                v = t.get(k, 0) + c
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
            return Poly(t)

        def linf(f):
            k = f[0]
            if k == "eqm":
                return ("eqm", lin(f[1]), f[2])
            if k in ("eq", "le"):
                return (k, lin(f[1]))
            if k == "not":
                return f_not(linf(f[1]))
            if k in ("and", "or"):
                return (k, tuple(linf(x) for x in f[1]))
            return f

        enc = Path._Enc(self)
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 3000)
        for _, eq, _ in self.rows:
            s.add(enc.poly(lin(eq)) == 0)
        for f in fs:
            s.add(enc.formula(linf(f)))
        for x in enc.side:
            s.add(x)
        for mono, zv in list(enc.mv.items()):
            v = self.vars[mono[0]]
            if v.lo is not None:
                s.add(zv >= z3.IntVal(v.lo))
            if v.hi is not None:
                s.add(zv <= z3.IntVal(v.hi))
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
        if r != z3.sat:
            return None
        md = s.model()
        env = dict(fixed)
        for v in self.vars:
            if v.i in env:
                continue
            zv = enc.mv.get((v.i,))
            x = md.eval(zv).as_long() if zv is not None and md[zv] is not None else None
            if x is None:
                x = self._sample(v, 0) if v.kind not in ("quot",) else 0
                if zv is not None:
                    x = 0 if (v.lo is None or v.lo <= 0) and (v.hi is None or v.hi >= 0) else v.lo
            env[v.i] = x
        return env if self.check_env(env, formulas) else None


def _f_eqms(f, out):
    if f[0] == "eqm":
        out[(f[1].key(), f[2])] = f
    elif f[0] == "not":
        _f_eqms(f[1], out)
    elif f[0] in ("and", "or"):
        for x in f[1]:
            _f_eqms(x, out)


def _has_field_product(path, fs):
    atoms = {}
    for f in list(path.pc) + list(fs):
        _f_eqms(f, atoms)
    return any(a[1].deg() >= 2 for a in atoms.values())


def factor_poly(p, m):
    """Factors of p over the integers (content monomial, then sympy on small polynomials)."""
    monos = list(p.t)
    common = list(monos[0])
    for mm in monos[1:]:
        rest = list(mm)
        nxt = []
        for v in common:
            if v in rest:
                rest.remove(v)
                nxt.append(v)
        common = nxt
        if not common:
            break
    facs = []
    if common:
        facs = [Poly.var(v) for v in sorted(set(common))]
        p = Poly({mono_div(mm, tuple(common)): c for mm, c in p.t.items()})
        if p.is_const():
            return facs
    if p.deg() >= 2 and len(p.t) <= 60:
        try:
            facs += _sympy_factor(p)
        except Exception:
            facs.append(p)
    else:
        facs.append(p)
    return facs


_fac_cache = {}


def _sympy_factor(p):
    k = p.key()
    if k in _fac_cache:
        return _fac_cache[k]
    import sympy

    vs = sorted(p.vars())
    syms = {i: sympy.Symbol("x%d" % i) for i in vs}
    e = 0
    for m, c in p.t.items():
        t = sympy.Integer(c)
        for i in m:
            t = t * syms[i]
        e += t
    gens = [syms[i] for i in vs]
    _, fl = sympy.factor_list(e, *gens)
    out = []
    for f, _ in fl:
        t = {}
        for mon, c in sympy.Poly(f, *gens).terms():
            mm = []
            for i, n in zip(vs, mon):
                mm += [i] * n
            t[tuple(mm)] = int(c)
        out.append(Poly(t))
    _fac_cache[k] = out or [p]
    return _fac_cache[k]
