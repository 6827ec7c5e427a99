"""Integer polynomials over symbolic variables (the term language of the encoding).

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
variable indices (with repetition).  Everything the executed code computes with
big numbers or group elements is one of these.
"""


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._key = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def var(i):
        return Poly({(i,): 1})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_val(self):
        return self.t.get((), 0)

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        if k == 0:
            return Poly()
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if len(o.t) < len(self.t):
            self, o = o, self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def mul_mono(self, mono):
        if not mono:
            return self
        return Poly({tuple(sorted(m + mono)): c for m, c in self.t.items()})

    def mod(self, q):
        """Symmetric reduction of the coefficients modulo q (field view)."""
        r = {}
        h = q >> 1
        for m, c in self.t.items():
            c %= q
            if c:
                r[m] = c - q if c > h else c
        return Poly(r)

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def deg(self):
        return max((len(m) for m in self.t), default=0)

    def eval(self, env, mod=None):
        s = 0
        for m, c in self.t.items():
            v = c
            for i in m:
                v *= env[i]
                if mod:
                    v %= mod
            s += v
        return s % mod if mod else s

    def show(self, names):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            ms = "*".join(names[i] for i in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%d*%s" % (c, ms))
        return " + ".join(out)


def mono_div(m, d):
    """m / d as a monomial, or None when d does not divide m."""
    m = list(m)
    for v in d:
        try:
            m.remove(v)
        except ValueError:
            return None
    return tuple(m)
