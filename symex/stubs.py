"""Symbolic stand-ins for petlib.bn, petlib.ec, bplib.bp, hashlib, random, secrets, warnings.

Semantics (validated against the real libraries by selfcheck.py and by replaying path
models): a big number is an integer polynomial; an element of a prime-order group is its
discrete logarithm, a polynomial modulo the real group order; a pairing multiplies
discrete logarithms.  SHA-256 is a collision-free random oracle over the exact bytes fed
to it.  Bn.random() returns an arbitrary value of its documented range.
"""

import hashlib as _hashlib
import re
import types

from .engine import SymBool, T, F, f_and, f_not, f_or, Unsupported
from .poly import Poly

P224_ORDER = 26959946667150639794667015087019625940457807714424391721682722368061
CURVES = {
    713: (P224_ORDER, 28),
    415: (0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551, 32),
    714: (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 32),
    409: (0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831, 24),
    715: (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973, 48),
    716: (0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409, 66),
}
BP_ORDER = 16798108731015832284940804142231733909759579603404752749028378864165570215949

# token text: one per distinct symbolic value that is printed / encoded.  All tokens have
# the byte length of a real compressed export so that fixed-width code sees plausible data.
TOK = "\ue0a0{:s}{:08x}\ue0a1"
_B1, _B2 = "\ue0a0".encode(), "\ue0a1".encode()
RE_TOK = re.compile(_B1 + rb"([A-Za-z])([0-9a-f]{8})(?:\.*)" + _B2)
RE_HEX = re.compile(_B1.hex().encode() + rb"((?:[0-9a-f]{2}){9,400}?)" + _B2.hex().encode())
RE_REPR = re.compile(rb"\\xee\\x82\\xa0([A-Za-z])([0-9a-f]{8})(?:\.*)\\xee\\x82\\xa1")


class World:
    """Everything one path shares: the token table, oracle queries, random draws."""

    def __init__(self, path):
        self.path = path
        self.tokens = []          # (kind, payload)
        self.tok_index = {}
        self.old_queries = []
        self.hn = 0
        self.guesses = []         # numbers fixed before later oracle answers
        self.last_segs = None
        self.distinct = False     # assume that queries that may differ do differ
        self.queries = []         # (segments, digest id)
        self.scripted = []        # values to be returned by the next Bn.random calls
        self.draws = []           # (bound, Poly)
        self.hash_points = {}
        self.distinct_points = False
        self.token_sizes = []
        self.hashlog = []
        self.warnings = []
        self.salt = 0
        self.hashed = {}
        self.rand_choices = []
        self.printed = []

    def hash_of(self, kind, x, h=None):
        """hash(): equal values have equal hashes, different ones differ (equality is decided by forking)."""
        xs = self.hashed.setdefault(kind, [])
        for y, hy in xs:
            if y is x or bool(y == x):
                return hy
        if h is None:
            h = hash((kind, len(xs)))
        xs.append((x, h))
        return h

    # tokens --------------------------------------------------------------
    def token(self, kind, payload, length=0):
        key = (kind, payload if not isinstance(payload, Poly) else payload.key())
        i = self.tok_index.get(key)
        if i is None:
            i = len(self.tokens)
            self.tokens.append((kind, payload))
            self.tok_index[key] = i
        t = "\ue0a0%s%08x" % (kind[0], i)
        pad = length - (3 + 9 + 3)
        if pad > 0:
            t += "." * pad
        return t + "\ue0a1"

    def lookup(self, data, kinds=None):
        """Token payload when `data` (bytes) is exactly one token, else None."""
        m = RE_TOK.fullmatch(bytes(data))
        if not m:
            return None
        k, p = self.tokens[int(m.group(2), 16)]
        if kinds and k not in kinds:
            return None
        return k, p

    def segments(self, data):
        """Split bytes into literal and token segments; hex and repr forms are recognised."""
        out = []
        pos = 0
        found = []
        for m in RE_TOK.finditer(data):
            found.append((m.start(), m.end(), "raw", int(m.group(2), 16)))
        for m in RE_HEX.finditer(data):
            inner = bytes.fromhex(m.group(1).decode())
            mm = re.fullmatch(rb"([A-Za-z])([0-9a-f]{8})\.*", inner)
            if mm:
                found.append((m.start(), m.end(), "hex", int(mm.group(2), 16)))
        for m in RE_REPR.finditer(data):
            found.append((m.start(), m.end(), "repr", int(m.group(2), 16)))
        for a, b, form, i in sorted(found):
            if a < pos:
                continue
            if a > pos:
                out.append(("lit", data[pos:a]))
            out.append((form, i))
            pos = b
        if pos < len(data):
            out.append(("lit", data[pos:]))
        for s in out:
            if s[0] == "lit" and (_B1 in s[1] or _B1.hex().encode() in s[1]):
                raise Unsupported("a truncated or transformed symbolic value was hashed")
        return out

    def tok_eq(self, i, j):
        if i == j:
            return T
        k1, p1 = self.tokens[i]
        k2, p2 = self.tokens[j]
        if k1 != k2:
            return F
        if k1[0] == "P":                      # group element: P<group tag>
            return ("eqm", p1 - p2, self.group_order(k1))
        if k1[0] == "N":                      # integer
            return ("eq", p1 - p2)
        if k1[0] == "O":                      # opaque string
            return ("eq", p1 - p2)
        return F

    def group_order(self, kind):
        return CURVES[int(kind[3:])][0] if kind.startswith("PEC") else BP_ORDER

    def seq_eq(self, a, b):
        if len(a) != len(b):
            return F
        fs = []
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return F
            if x[0] == "lit":
                if x[1] != y[1]:
                    return F
            else:
                fs.append(self.tok_eq(x[1], y[1]))
        return f_and(fs)

    def oracle(self, algo, data):
        """Random oracle: same input, same output; different input, different output."""
        segs = self.segments(data)
        self.last_segs = segs
        for s, d in self.queries:
            if d[0] != algo:
                continue
            e = self.seq_eq(s, segs)
            if e == F:
                continue
            if self.distinct and e != T and self.path.simplify(e) != T:
                self.path.assume(f_not(e))
                continue
            if self.path.decide(e):
                return d
        # names of secrets (8 bytes) depend on object identities: they are not counted
        n = self.hn
        if len(data) != 8:
            self.hn += 1
        if all(s[0] == "lit" for s in segs):
            h = _hashlib.new(algo, bytes(data)).hexdigest()
            d = (algo, n, [Poly.const(int(h, 16))], h)
        else:
            d = (algo, n, [None], _hashlib.new(algo, b"oracle-%d" % n).hexdigest())
        self.queries.append((segs, d))
        return d


class HashNum:
    """The digest of one oracle query, usable as bytes, hex text or number."""


class HexText(str):
    """Hex text of a digest; slices keep track of which bits they are."""

    def __new__(cls, text, src, a, b):
        o = str.__new__(cls, text)
        o.src, o.a, o.b = src, a, b
        return o

    def __getitem__(self, k):
        t = str.__getitem__(self, k)
        if isinstance(k, slice):
            a, b, st = k.indices(len(self))
            if st == 1 and b > a:
                return HexText(t, self.src, self.a + a, self.a + b)
        return t


MAX_PICKS = 300


class DoesNotEnd(BaseException):
    """A run of the library that goes on drawing choices without end."""


class HashBytes(bytes):
    def __new__(cls, data, src, a, b):
        o = bytes.__new__(cls, data)
        o.src, o.a, o.b = src, a, b
        return o

    def __getitem__(self, k):
        t = bytes.__getitem__(self, k)
        if isinstance(k, slice):
            a, b, st = k.indices(len(self))
            if st == 1 and b > a:
                return HashBytes(t, self.src, self.a + a, self.a + b)
        return t

    def hex(self, *a):
        return HexText(bytes.hex(self, *a), self.src, 2 * self.a, 2 * self.b)


def build(world):
    """Create the stub modules bound to one path."""
    path = world.path
    W = world

    def coerce(x):
        if isinstance(x, Bn):
            return x
        if isinstance(x, bool):
            return Bn(int(x))
        if isinstance(x, int):
            return Bn(x)
        if isinstance(x, (SymBit, SymBits)):
            return Bn(int(x))
        raise RecursionError("petlib: cannot coerce %s" % type(x).__name__)

    def digest_num(d, nbits):
        """The number a digest denotes (fresh, in [0, 2^nbits), different from the others)."""
        cell = d[2]
        if cell[0] is None:
            v = path.new_var("H%d" % d[1], "hash", 0, (1 << nbits) - 1)
            for _, o in W.queries:
                if o is not d and o[2][0] is not None and o[0] == d[0]:
                    path.pc.append(f_not(("eq", v - o[2][0])))
            for n, p in W.guesses:
                if d[1] >= n:
                    path.pc.append(f_not(("eq", v - p)))
            cell[0] = v
            path.hashes.append((d[1], v))
        return cell[0]

    class SymBit:
        def __init__(self, p):
            self.p = p

        def __bool__(self):
            return not path.decide(("eq", self.p))

        def __int__(self):
            return int(bool(self))

        __index__ = __int__

        def __eq__(self, o):
            if isinstance(o, int):
                return SymBool(path, ("eq", self.p - Poly.const(o)))
            return int(self) == o

        def __ne__(self, o):
            return not (self == o)

        def __hash__(self):
            return hash(int(self))

        def __repr__(self):
            return str(int(self))

    for nm in ("add", "radd", "sub", "rsub", "mul", "rmul", "and", "rand", "or", "ror", "xor",
               "rxor", "lshift", "rlshift", "mod", "floordiv", "lt", "le", "gt", "ge"):
        def mk(nm):
            def op(self, o):
                return getattr(int, "__%s__" % nm)(int(self), int(o) if isinstance(o, (SymBit, SymBits)) else o)
            return op
        setattr(SymBit, "__%s__" % nm, mk(nm))

    class SymBits:
        """num_bits() of a symbolic number: compared without enumerating, enumerated by use."""

        def __init__(self, p):
            self.p = p

        def _ge(self, k):
            """|p| >= 2^(k-1), i.e. num_bits >= k."""
            if k <= 0:
                return T
            b = Poly.const(1 << (k - 1))
            return f_or([("le", b - self.p), ("le", b + self.p)])

        def __ge__(self, o):
            return SymBool(path, self._ge(int(o)))

        def __gt__(self, o):
            return SymBool(path, self._ge(int(o) + 1))

        def __lt__(self, o):
            return SymBool(path, f_not(self._ge(int(o))))

        def __le__(self, o):
            return SymBool(path, f_not(self._ge(int(o) + 1)))

        def __eq__(self, o):
            return SymBool(path, f_and([self._ge(int(o)), f_not(self._ge(int(o) + 1))]))

        def __ne__(self, o):
            return not (self == o)

        def __int__(self):
            lo, hi = path.bounds(self.p)
            top = 300 if lo is None or hi is None else max(abs(lo), abs(hi)).bit_length()
            low = 0 if lo is None or hi is None else lo if lo > 0 else -hi if hi < 0 else 0
            for k in range(low.bit_length(), top + 1):
                if k == top:
                    break
                if k - low.bit_length() > 70:
                    raise Unsupported("num_bits of an unbounded symbolic number enumerated")
                if path.decide(f_not(self._ge(k + 1))):
                    return k
            return top

        __index__ = __int__

        def __hash__(self):
            return hash(int(self))

        def __repr__(self):
            return str(int(self))

    for nm in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "mod", "rpow", "rlshift"):
        def mk2(nm):
            def op(self, o):
                return getattr(int, "__%s__" % nm)(int(self), int(o) if isinstance(o, (SymBit, SymBits)) else o)
            return op
        setattr(SymBits, "__%s__" % nm, mk2(nm))

    class Bn:
        __slots__ = ("p",)
        _upper_bound = 2 ** 63

        def __init__(self, num=0):
            if isinstance(num, Bn):
                if path.decide(("eq", num.p)):
                    self.p = Poly()
                    return
                raise TypeError("bad operand type for abs(): 'Bn'")
            if isinstance(num, (SymBit, SymBits)):
                num = int(num)
            if not isinstance(num, int):
                if num == 0:
                    self.p = Poly()
                    return
                if isinstance(num, float):
                    raise Exception("BN exception")
                abs(num)
            if abs(num) > 2 ** 63:
                raise Exception("BN exception: %s" % [])
            if abs(num) >= 1 << 32:
                raise OverflowError("integer %d does not fit '32-bit unsigned int'" % abs(num))
            self.p = Poly.const(int(num))

        @property
        def bn(self):
            return ("bn", self)

        @staticmethod
        def _of(p):
            r = Bn.__new__(Bn)
            r.p = p
            return r

        @staticmethod
        def from_num(num):
            if isinstance(num, int):
                return Bn(num)
            if isinstance(num, Bn):
                return num
            return NotImplemented

        @staticmethod
        def from_decimal(s):
            tk = W.lookup(s.encode())
            if tk and tk[0] == "N":
                return Bn._of(tk[1])
            if not re.fullmatch(r"-?[0-9]+", s):
                raise Exception("BN Error")
            return Bn._of(Poly.const(int(s)))

        @staticmethod
        def from_hex(s):
            if isinstance(s, HexText):
                return Bn._of(_hash_slice(s.src, s.a, s.b))
            tk = W.lookup(s.encode())
            if tk and tk[0] == "N":
                return Bn._of(tk[1])
            if not re.fullmatch(r"-?[0-9a-fA-F]+", s):
                raise Exception("BN Error")
            return Bn._of(Poly.const(int(s, 16)))

        @staticmethod
        def from_binary(b):
            if isinstance(b, HashBytes):
                return Bn._of(_hash_slice(b.src, 2 * b.a, 2 * b.b))
            tk = W.lookup(b)
            if tk:
                if tk[0] == "N":
                    return Bn._of(tk[1])
                raise Unsupported("from_binary of another symbolic value")
            if _B1 in bytes(b):
                raise Unsupported("from_binary of mixed bytes")
            return Bn._of(Poly.const(int.from_bytes(b, "big")))

        @staticmethod
        def get_prime(bits, safe=1):
            raise Unsupported("get_prime")

        def copy(self):
            return Bn._of(self.p)

        __copy__ = copy

        def __deepcopy__(self, memo):
            return Bn._of(self.p)

        # comparisons
        def __lt__(self, o):
            o = coerce(o)
            return SymBool(path, ("le", self.p - o.p + Poly.const(1)))

        def __le__(self, o):
            o = coerce(o)
            return SymBool(path, ("le", self.p - o.p))

        def __gt__(self, o):
            o = coerce(o)
            return SymBool(path, ("le", o.p - self.p + Poly.const(1)))

        def __ge__(self, o):
            o = coerce(o)
            return SymBool(path, ("le", o.p - self.p))

        def __eq__(self, o):
            o = coerce(o)
            return SymBool(path, ("eq", self.p - o.p))

        def __ne__(self, o):
            o = coerce(o)
            return SymBool(path, f_not(("eq", self.p - o.p)))

        def bool(self):
            return self.__bool__()

        def __bool__(self):
            return not path.decide(("eq", self.p))

        __nonzero__ = __bool__

        def __hash__(self):
            return W.hash_of("N", self, hash(self.p.const_val()) if self.p.is_const() else None)

        # conversions
        def _conc(self):
            if self.p.is_const():
                return self.p.const_val()
            lo, hi = path.bounds(self.p)
            if lo is None or hi is None or hi - lo > 256:
                raise Unsupported("int() of a symbolic number")
            for k in range(lo, hi + 1):
                if path.decide(("eq", self.p - Poly.const(k))):
                    return k
            raise Unsupported("int() enumeration failed")

        def int(self):
            return self._conc()

        def __int__(self):
            return self._conc()

        def __index__(self):
            return self._conc()

        def __repr__(self):
            if self.p.is_const():
                return str(self.p.const_val())
            return W.token("N", self.p)

        def repr(self):
            return self.__repr__()

        __str__ = __repr__

        def __hex__(self):
            if self.p.is_const():
                v = self.p.const_val()
                h = "%X" % abs(v)
                if v and len(h) % 2:
                    h = "0" + h
                return ("-" if v < 0 else "") + h
            return W.token("N", self.p)

        def hex(self):
            return self.__hex__()

        def __format__(self, spec):
            return format(str(self), spec)

        def binary(self):
            if self < 0:
                raise Exception("Cannot represent negative numbers")
            if self.p.is_const():
                v = self.p.const_val()
                return v.to_bytes((v.bit_length() + 7) // 8, "big")
            return W.token("N", self.p).encode()

        def random(self):
            if not self.p.is_const():
                raise Unsupported("random() below a symbolic bound")
            n = self.p.const_val()
            if n <= 0:
                raise Exception("BN exception")
            if W.scripted:
                v = W.scripted.pop(0)
                p = coerce(v).p
                W.draws.append((n, p, True))
                return Bn._of(p)
            if n == 1:
                W.draws.append((1, Poly(), False))
                return Bn(0)
            p = path.new_var("rnd%d" % len(W.draws), "rand", 1 if n >> 150 else 0, n - 1)
            W.draws.append((n, p, False))
            return Bn._of(p)

        # arithmetic
        def __add__(self, o):
            return Bn._of(self.p + coerce(o).p)

        __radd__ = __add__
        int_add = __add__

        def __sub__(self, o):
            return Bn._of(self.p - coerce(o).p)

        int_sub = __sub__

        def __rsub__(self, o):
            return Bn(o) - self

        def __mul__(self, o):
            if isinstance(o, Bn):
                return Bn._of(self.p * o.p)
            if isinstance(o, (int, SymBit, SymBits)):
                return Bn._of(self.p * coerce(o).p)
            return NotImplemented

        __rmul__ = __mul__
        int_mul = __mul__

        def __neg__(self):
            return Bn._of(-self.p)

        int_neg = __neg__

        def mod_add(self, o, m):
            return Bn._of(_mod(self.p + coerce(o).p, coerce(m).p))

        def mod_sub(self, o, m):
            return Bn._of(_mod(self.p - coerce(o).p, coerce(m).p))

        def mod_mul(self, o, m):
            return Bn._of(_mod(self.p * coerce(o).p, coerce(m).p))

        def mod_inverse(self, m):
            m = coerce(m)
            if not m.p.is_const():
                raise Unsupported("inverse for a symbolic modulus")
            mv = abs(m.p.const_val())
            if self.p.is_const():
                try:
                    return Bn._of(Poly.const(pow(self.p.const_val(), -1, mv)))
                except ValueError:
                    raise Exception("No inverse")
            if mv not in path.fields:
                raise Unsupported("inverse for a composite modulus")
            if path.decide(("eqm", self.p, mv)):
                raise Exception("No inverse")
            return Bn._of(path.p_inv(self.p, mv))

        def __mod__(self, o):
            if not isinstance(o, Bn):
                coerce(o)
                return None                      # petlib: `Bn % int` returns None
            return Bn._of(_mod(self.p, o.p))

        def mod(self, o):
            return self.__mod__(o)

        def __rmod__(self, o):
            return Bn(o).__mod__(self)

        def __divmod__(self, o):
            o = coerce(o)
            return _tdiv(self.p, o.p)

        def divmod(self, o):
            return self.__divmod__(o)

        def __rdivmod__(self, o):
            return Bn(o).__divmod__(self)

        def __div__(self, o):
            return self.__divmod__(o)[0]

        int_div = __div__
        __truediv__ = __div__
        __floordiv__ = __div__

        def __rdiv__(self, o):
            return Bn(o).__div__(self)

        __rtruediv__ = __rdiv__
        __rfloordiv__ = __rdiv__

        def __pow__(self, o, modulo=None, ctx=None):
            o = coerce(o)
            if not o.p.is_const():
                e = o._conc()
            else:
                e = o.p.const_val()
            if modulo is not None:
                mo = coerce(modulo)
                if not mo.p.is_const():
                    raise Unsupported("symbolic modulus")
                mv = abs(mo.p.const_val())
                if self.p.is_const():
                    if e < 0:
                        raise Unsupported("negative modular exponent")
                    return Bn._of(Poly.const(pow(self.p.const_val(), e, mv)))
            if e < 0 or e > (64 if not self.p.is_const() else 4096):
                raise Unsupported("exponent out of range")
            if self.p.is_const():
                return Bn._of(Poly.const(self.p.const_val() ** e))
            r = Poly.const(1)
            for _ in range(e):
                r = r * self.p
            return Bn._of(r if modulo is None else _mod(r, Poly.const(mv)))

        def __rpow__(self, o):
            return Bn(o).__pow__(self)

        def pow(self, o, modulo=None, ctx=None):
            if modulo:
                return self.__pow__(o, modulo, ctx)
            return self ** o

        def mod_pow(self, o, m, ctx=None):
            return self.__pow__(o, m, ctx)

        def is_odd(self):
            if self.p.is_const():
                return bool(self.p.const_val() & 1)
            return bool(SymBit(_bit(self.p, 0)))

        def is_prime(self):
            if not self.p.is_const():
                raise Unsupported("is_prime")
            import sympy
            return bool(sympy.isprime(self.p.const_val()))

        def is_bit_set(self, n):
            n = int(n)
            if self.p.is_const():
                return (abs(self.p.const_val()) >> n) & 1 if n >= 0 else 0
            if n < 0:
                return 0
            return SymBit(_bit(self.p, n))

        def num_bits(self):
            if self.p.is_const():
                return abs(self.p.const_val()).bit_length()
            return SymBits(self.p)

    def _hash_slice(d, a, b):
        """The number made of hex digits a..b of digest d."""
        nhex = 2 * _hashlib.new(d[0]).digest_size
        v = digest_num(d, 4 * nhex)
        if a == 0 and b == nhex:
            return v
        lowbits = 4 * (nhex - b)
        if lowbits:
            v, _ = path.p_divmod(v, 1 << lowbits)
        if a:
            _, v = path.p_divmod(v, 1 << (4 * (b - a)))
        return v

    def _mod(p, m):
        if not m.is_const():
            raise Unsupported("symbolic modulus")
        mv = abs(m.const_val())
        if mv == 0:
            raise Exception("BN exception: division by zero")
        return path.p_mod(p, mv)

    def _abs(p):
        lo, hi = path.bounds(p)
        if lo is not None and lo >= 0:
            return p
        return -p if path.decide(("le", p + Poly.const(1))) else p

    def _bit(p, n):
        d = _abs(p)
        for _ in range(n):
            d = path.p_divmod(d, 2)[0]
        return path.p_divmod(d, 2)[1]

    def _tdiv(p, m):
        if not m.is_const():
            raise Unsupported("division by a symbolic number")
        mv = m.const_val()
        if mv == 0:
            raise Exception("BN exception: division by zero")
        if p.is_const():
            a = p.const_val()
            qv = abs(a) // abs(mv)
            if (a < 0) != (mv < 0):
                qv = -qv
            return Bn._of(Poly.const(qv)), Bn._of(Poly.const(a - qv * mv))
        neg = False
        lo, hi = path.bounds(p)
        if not (lo is not None and lo >= 0):
            neg = path.decide(("le", p + Poly.const(1)))
        a = -p if neg else p
        d, r = path.p_divmod(a, abs(mv))
        if neg:
            r = -r
        if neg != (mv < 0):
            d = -d
        return Bn._of(d), Bn._of(r)

    # ---------------------------------------------------------------- petlib.ec
    class EcGroup:
        @staticmethod
        def list_curves():
            return {k: "curve" for k in CURVES}

        def __init__(self, nid=713, optimize_mult=True):
            if nid not in CURVES:
                raise Unsupported("curve %s is not modelled" % nid)
            self._nid = nid
            self.ecg = ("ecg", nid)
            path.fields.add(CURVES[nid][0])
            self.gen = self.inf = self.ord = None

        def nid(self):
            return self._nid

        def parameters(self):
            raise Unsupported("curve parameters")

        def generator(self):
            if self.gen is None:
                self.gen = EcPt._of(self, Poly.const(1))
            return self.gen

        def infinite(self):
            if self.inf is None:
                self.inf = EcPt._of(self, Poly())
            return self.inf

        def order(self):
            if self.ord is None:
                self.ord = Bn._of(Poly.const(CURVES[self._nid][0]))
            return self.ord

        def sum(self, elems):
            if any(not e.group == self for e in elems):
                raise Unsupported("sum over points of another group")
            r = elems[0].d
            for e in elems[1:]:
                r = r + e.d
            return EcPt._of(self, r)

        def wsum(self, weights, elems):
            assert len(weights) == len(elems)
            assert all(isinstance(e, Bn) for e in weights)
            assert all(isinstance(e, EcPt) for e in elems)
            if any(not e.group == self for e in elems):
                raise Exception("EC exception")
            r = Poly()
            for w, e in zip(weights, elems):
                r = r + w.p * e.d
            return EcPt._of(self, r)

        def __eq__(self, other):
            return self.ecg == other.ecg

        def __ne__(self, other):
            return not self.__eq__(other)

        __hash__ = None

        def __repr__(self):
            return "EcGroup(%s)" % self._nid

        def check_point(self, pt):
            return pt.group._nid == self._nid

        def hash_to_point(self, data):
            return EcPt._of(self, hashed_point(W, path, "EC%d" % self._nid, bytes(data)))

        def get_points_from_x(self, x):
            raise Unsupported("get_points_from_x")

    class EcPt:
        __slots__ = ("d", "group")

        def __init__(self, group):
            self.group = group
            self.d = Poly()

        @staticmethod
        def _of(group, d):
            r = EcPt.__new__(EcPt)
            r.group = group
            r.d = d.mod(CURVES[group._nid][0])
            return r

        @property
        def pt(self):
            return ("pt", self)

        def _o(self):
            return CURVES[self.group._nid][0]

        @staticmethod
        def from_binary(sbin, group):
            tk = W.lookup(sbin)
            if tk is None or not tk[0].startswith("P"):
                raise Exception("EC exception")
            if tk[0] != "PEC%d" % group._nid:
                raise Exception("EC exception")
            return EcPt._of(group, tk[1])

        def __copy__(self):
            return EcPt._of(self.group, self.d)

        def _chk(self, other):
            if not isinstance(other, EcPt) or not other.group == self.group:
                raise Exception("EC exception")

        def __add__(self, other):
            self._chk(other)
            return EcPt._of(self.group, self.d + other.d)

        pt_add = __add__

        def pt_add_inplace(self, other):
            self._chk(other)
            self.d = (self.d + other.d).mod(self._o())

        __add_inplace__ = pt_add_inplace

        def pt_double(self):
            return self + self

        def pt_double_inplace(self):
            self.d = self.d.scale(2).mod(self._o())

        def __neg__(self):
            return EcPt._of(self.group, -self.d)

        pt_neg = __neg__

        def pt_neg_inplace(self):
            self.d = -self.d

        def __sub__(self, other):
            return self + (-other)

        def __rmul__(self, other):
            return EcPt._of(self.group, coerce(other).p * self.d)

        def pt_mul(self, s):
            return self.__rmul__(s)

        def pt_mul_inplace(self, s):
            self.d = (coerce(s).p * self.d).mod(self._o())

        def __eq__(self, other):
            self._chk(other)
            return SymBool(path, ("eqm", self.d - other.d, self._o()))

        pt_eq = __eq__

        def __ne__(self, other):
            self._chk(other)
            return SymBool(path, f_not(("eqm", self.d - other.d, self._o())))

        def __hash__(self):
            return W.hash_of("EC%d" % self.group._nid, self)

        def export(self, form=2):
            return W.token("PEC%d" % self.group._nid, self.d, CURVES[self.group._nid][1] + 1).encode()

        def is_infinite(self):
            return self == self.group.infinite()

        def get_affine(self):
            raise Unsupported("affine coordinates")

        def __str__(self):
            return self.export().hex()

        def __repr__(self):
            return "EcPt(%s)" % self.__str__()

    # ----------------------------------------------------------------- bplib.bp
    class BpGroup:
        def __init__(self, nid=1, optimize_mult=True):
            self.nid = nid
            self.optimize_mult = optimize_mult
            path.fields.add(BP_ORDER)
            self.bpg = ("bpg", nid)
            self.g1 = G1Elem._of(self, Poly.const(1))
            self.g2 = G2Elem._of(self, Poly.const(1))
            self.ord = None

        def order(self):
            if self.ord is None:
                self.ord = Bn._of(Poly.const(BP_ORDER))
            return self.ord

        def gen1(self):
            return self.g1

        def gen2(self):
            return self.g2

        def hashG1(self, data):
            return G1Elem._of(self, hashed_point(W, path, "G1", bytes(data)))

        def pair(self, a, b):
            if not isinstance(a, G1Elem) or not isinstance(b, G2Elem):
                raise Exception("EC exception: pairing of the wrong groups")
            return GTElem._of(self, a.d * b.d)

        def __copy__(self):
            return BpGroup(self.nid, self.optimize_mult)

        def __eq__(self, o):
            return o.nid == self.nid

        __hash__ = None

    class ProcHash(int):
        """hash() of exported bytes: salted per process."""

        def __new__(cls, tok, salt):
            o = int.__new__(cls, (hash(tok) ^ salt) & ((1 << 61) - 1))
            o.tok, o.salt = tok, salt
            return o

        def __repr__(self):
            return "PH%d[%s]" % (self.salt, self.tok)

        __str__ = __repr__

        def __format__(self, s):
            return repr(self)

    class Ops:
        KIND = ""
        LEN = 33

        @classmethod
        def _of(cls, group, d):
            r = cls.__new__(cls)
            r.group = group
            r.d = d.mod(BP_ORDER)
            return r

        @property
        def elem(self):
            return ("elem", self)

        def __init__(self, group):
            self.group = group
            self.d = Poly()

        def __copy__(self):
            return self._of(self.group, self.d)

        def eq(self, o):
            if type(o) is not type(self):
                raise AttributeError("comparison of elements of different groups")
            return SymBool(path, ("eqm", self.d - o.d, BP_ORDER))

        def __eq__(self, o):
            return self.eq(o)

        def __ne__(self, o):
            return not self.__eq__(o)

        def __hash__(self):
            return ProcHash(self.export().decode(), W.salt)

        def __add__(self, o):
            return self.add(o)

        def __sub__(self, o):
            return self.sub(o)

        def __mul__(self, o):
            return self.mul(o)

        def __rmul__(self, o):
            return self.mul(o)

        def __pow__(self, o, modulo=None):
            return self.exp(o)

        def __neg__(self):
            return self.neg()

        def export(self, form=None):
            return W.token(self.KIND, self.d, self.LEN).encode()

        @classmethod
        def from_bytes(cls, data, group):
            tk = W.lookup(data)
            if tk is None or tk[0] != cls.KIND:
                raise Exception("EC exception: 0")
            return cls._of(group, tk[1])

    def _scalar(x):
        if isinstance(x, Bn):
            return x
        if isinstance(x, int) or isinstance(x, (SymBit, SymBits)):
            return Bn(int(x))
        return None

    class _AddGroup(Ops):
        @classmethod
        def inf(cls, group):
            return cls._of(group, Poly())

        def add(self, o):
            if type(o) is not type(self):
                raise AttributeError("sum of elements of different groups")
            return self._of(self.group, self.d + o.d)

        def sub(self, o):
            return self._of(self.group, self.d - o.d)

        def double(self):
            return self._of(self.group, self.d.scale(2))

        def neg(self):
            return self._of(self.group, -self.d)

        def isinf(self):
            return self == self.inf(self.group)

        def mul(self, s):
            s = _scalar(s)
            if s is None:
                return NotImplemented
            return self._of(self.group, s.p * self.d)

    class G1Elem(_AddGroup):
        KIND = "PG1"
        LEN = 33

    class G2Elem(_AddGroup):
        KIND = "PG2"
        LEN = 128

    class GTElem(Ops):
        KIND = "PGT"
        LEN = 384

        @classmethod
        def one(cls, group):
            return cls._of(group, Poly())

        @classmethod
        def zero(cls, group):
            raise Unsupported("additive structure of GT")

        def isone(self):
            return SymBool(path, ("eqm", self.d, BP_ORDER))

        def add(self, o):
            raise Unsupported("additive structure of GT")

        sub = add

        def mul(self, o):
            if not isinstance(o, GTElem):
                # petlib/bplib pass o.elem to C; anything else fails
                raise AttributeError("mul")
            return self._of(self.group, self.d + o.d)

        def __truediv__(self, o):
            raise TypeError("unsupported operand type(s) for /: 'GTElem' and 'GTElem'")

        def inv(self):
            return self._of(self.group, -self.d)

        def sqr(self):
            return self._of(self.group, self.d.scale(2))

        def exp(self, s):
            s = _scalar(s)
            if s is None:
                return NotImplemented
            if path.decide(("eq", s.p)):
                # bplib: pt ** 0 is not the neutral element
                return self._of(self.group, path.new_var("gt0_%d" % len(path.vars), "dlog", 1, BP_ORDER - 1))
            return self._of(self.group, s.p * self.d)

        def neg(self):
            raise AttributeError("neg")

        def export(self, form=None):
            return W.token(self.KIND, self.d, self.LEN).encode()

    # ------------------------------------------------------------------ hashlib
    class Hash:
        def __init__(self, name, data=b""):
            self.name = name
            self.buf = bytes(data) if not isinstance(data, HashBytes) else bytes(data)
            self.digest_size = _hashlib.new(name).digest_size
            self.block_size = _hashlib.new(name).block_size

        def update(self, data):
            if isinstance(data, str):
                raise TypeError("Strings must be encoded before hashing")
            self.buf += bytes(data)

        def copy(self):
            return Hash(self.name, self.buf)

        def digest(self):
            d = W.oracle(self.name, self.buf)
            b = bytes.fromhex(d[3])
            return HashBytes(b, d, 0, len(b))

        def hexdigest(self):
            d = W.oracle(self.name, self.buf)
            t = d[3]
            return HexText(t, d, 0, len(t))

    hl = types.ModuleType("hashlib")
    for nm in ("sha1", "sha224", "sha256", "sha384", "sha512", "md5", "sha3_256", "sha3_512", "blake2b", "blake2s"):
        def mkh(nm):
            return lambda data=b"", **kw: Hash(nm, data)
        setattr(hl, nm, mkh(nm))
    hl.new = lambda name, data=b"", **kw: Hash(name, data)

    # ------------------------------------------------------------ random, secrets
    def pick(n, label):
        v = path.choose(n, label)
        W.rand_choices.append(v)
        if len(W.rand_choices) > MAX_PICKS:
            raise DoesNotEnd("more than %d draws from a random generator in one run" % MAX_PICKS)
        return v

    class SystemRandom:
        def __init__(self, *a):
            pass

        def seed(self, *a, **k):
            pass

        def choice(self, seq):
            seq = list(seq)
            if not seq:
                raise IndexError("Cannot choose from an empty sequence")
            return seq[pick(len(seq), "choice")]

        def randrange(self, a, b=None, step=1):
            if b is None:
                a, b = 0, a
            a, b = int(a), int(b)
            r = range(a, b, step)
            if len(r) == 0:
                raise ValueError("empty range for randrange()")
            if len(r) > 64:
                raise Unsupported("large randrange")
            return r[pick(len(r), "randrange")]

        def randint(self, a, b):
            return self.randrange(a, b + 1)

        def _randbelow(self, n):
            return self.randrange(n)

        def sample(self, seq, k):
            seq = list(seq)
            out = []
            for _ in range(k):
                out.append(seq.pop(pick(len(seq), "sample")))
            return out

        def shuffle(self, seq):
            out = self.sample(seq, len(seq))
            seq[:] = out

        def random(self):
            raise Unsupported("random.random")

        def getrandbits(self, k):
            raise Unsupported("random.getrandbits")

    rnd = types.ModuleType("random")
    rnd.SystemRandom = rnd.Random = SystemRandom
    _sr = SystemRandom()
    for nm in ("choice", "randrange", "randint", "sample", "shuffle", "random", "getrandbits", "seed"):
        setattr(rnd, nm, getattr(_sr, nm))

    sec = types.ModuleType("secrets")

    def token_bytes(n=32):
        W.token_sizes.append(n)
        return _hashlib.sha512(b"token%d" % len(W.token_sizes)).digest()[:n].ljust(n, b"\0")

    def randbelow(n):
        v = Bn._of(Poly.const(int(n))).random() if not isinstance(n, Bn) else n.random()
        if v.p.is_const():
            return v.p.const_val()
        raise Unsupported("secrets.randbelow")

    sec.token_bytes = token_bytes
    sec.token_hex = lambda n=32: token_bytes(n).hex()
    sec.randbelow = randbelow
    sec.choice = _sr.choice
    sec.SystemRandom = SystemRandom

    wr = types.ModuleType("warnings")

    def warn(message, category=None, stacklevel=1, source=None):
        W.warnings.append(str(message))
    wr.warn = warn
    wr.filterwarnings = wr.simplefilter = lambda *a, **k: None

    # modules
    pet = types.ModuleType("petlib")
    pet.__path__ = []
    bn_m = types.ModuleType("petlib.bn")
    bn_m.Bn = Bn

    def force_Bn(n):
        def deco(f):
            return f
        return deco
    bn_m.force_Bn = force_Bn
    bn_m.zero = Bn(0)
    ec_m = types.ModuleType("petlib.ec")
    ec_m.EcGroup, ec_m.EcPt = EcGroup, EcPt
    ec_m.Bn, ec_m.force_Bn = Bn, force_Bn
    ec_m.POINT_CONVERSION_UNCOMPRESSED, ec_m.POINT_CONVERSION_COMPRESSED = 4, 2
    bpp = types.ModuleType("bplib")
    bpp.__path__ = []
    bp_m = types.ModuleType("bplib.bp")
    bp_m.BpGroup, bp_m.G1Elem, bp_m.G2Elem, bp_m.GTElem, bp_m.Ops = BpGroup, G1Elem, G2Elem, GTElem, Ops
    bp_m.Bn, bp_m.force_Bn = Bn, force_Bn
    pet.bn, pet.ec = bn_m, ec_m
    bpp.bp = bp_m
    return {
        "petlib": pet, "petlib.bn": bn_m, "petlib.ec": ec_m,
        "bplib": bpp, "bplib.bp": bp_m,
        "hashlib": hl, "random": rnd, "secrets": sec, "warnings": wr,
    }


def hashed_point(W, path, group, data):
    k = (group, data)
    if k not in W.hash_points:
        if _B1 in data:
            raise Unsupported("hash_to_point of a symbolic value")
        order = BP_ORDER if group == "G1" else CURVES[int(group[2:])][0]
        v = path.new_var("hp%d" % len(W.hash_points), "dlog", 1, order - 1)
        if W.distinct_points:
            path.pc.append(f_not(("eq", v - Poly.const(1))))
            for (g, _), o in W.hash_points.items():
                if g == group:
                    path.pc.append(f_not(("eq", v - o)))
        W.hash_points[k] = v
    return W.hash_points[k]
