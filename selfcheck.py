#!/opt/venv/bin/python
"""Compare the stand-ins for petlib and bplib with the real libraries on concrete values.

Exit 0 when every operation of the stand-ins gives what the real library gives (value, or raising)."""
import sys

sys.dont_write_bytecode = True
import itertools
import os
import random
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.simplefilter("ignore")

from symex.engine import Path, Stats, EngineStop
from symex.poly import Poly
from symex.stubs import World, build, BP_ORDER, CURVES

import petlib.bn as rbn
import petlib.ec as rec
import bplib.bp as rbp

path = Path([], Stats(), seed=1)
st = build(World(path))
SB, SE, SBP = st["petlib.bn"].Bn, st["petlib.ec"], st["bplib.bp"]
RB = rbn.Bn
rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
bad, done = [], 0


def rb(v):
    r = RB.from_decimal(str(abs(v)))
    return -r if v < 0 else r


def norm(x):
    if isinstance(x, tuple):
        return tuple(norm(v) for v in x)
    if isinstance(x, (SB, RB)):
        return int(str(x))
    if type(x).__name__ == "SymBool":
        return bool(x)
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return int(x) if isinstance(x, bool) else x
    return type(x).__name__


def run(f, *a):
    try:
        return norm(f(*a))
    except EngineStop:
        return "SKIP"
    except Exception as e:
        return "raises"


def cmp(what, s, r):
    global done
    done += 1
    if s != r and s != "SKIP":
        bad.append("%s: stand-in %r, library %r" % (what, s, r))


# ------------------------------------------------------------------ numbers
P = CURVES[713][0]
vals = [0, 1, 2, 3, 5, 8, 255, 256, -1, -2, -7, P, P - 1, -P, BP_ORDER, 1 << 64, (1 << 63) - 1, 1 << 128] + \
       [rng.randrange(-(1 << 260), 1 << 260) for _ in range(6)]
binary = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "%": lambda a, b: a % b, "//": lambda a, b: a // b,
    "/": lambda a, b: a / b, "divmod": divmod, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "int_add": lambda a, b: a.int_add(b),
    "int_sub": lambda a, b: a.int_sub(b), "int_mul": lambda a, b: a.int_mul(b), "int_div": lambda a, b: a.int_div(b),
    "mod": lambda a, b: a.mod(b), "mod_inverse": lambda a, b: a.mod_inverse(b),
}
unary = {
    "neg": lambda a: -a, "hex": lambda a: a.hex(), "str": str, "repr": repr, "binary": lambda a: a.binary(), "bool": bool,
    "num_bits": lambda a: a.num_bits(), "is_odd": lambda a: a.is_odd(), "int": int, "copy": lambda a: a.copy(),
    "bit0": lambda a: a.is_bit_set(0), "bit3": lambda a: a.is_bit_set(3), "bit200": lambda a: a.is_bit_set(200),
    "abs": abs, "hash": lambda a: hash(a) == hash(a), "int_neg": lambda a: a.int_neg(), "from_num": lambda a: type(a).from_num(a),
    "pow2": lambda a: a.pow(2), "**3": lambda a: a ** 3, "Bn(a)": lambda a: type(a)(a), "2+a": lambda a: 2 + a, "2-a": lambda a: 2 - a,
    "2*a": lambda a: 2 * a, "a%7": lambda a: a % 7, "a<3": lambda a: a < 3, "a==3": lambda a: a == 3,
}
for n, f in unary.items():
    for a in vals:
        cmp("%s(%d)" % (n, a), run(f, SB._of(Poly.const(a))), run(f, rb(a)))
for n, f in binary.items():
    for a, b in itertools.product(vals, vals):
        if n == "mod_inverse" and b in (0, 1, -1):
            continue
        cmp("%d %s %d" % (a, n, b), run(f, SB._of(Poly.const(a)), SB._of(Poly.const(b))), run(f, rb(a), rb(b)))
for n in ("mod_add", "mod_sub", "mod_mul", "mod_pow", "pow"):
    for a, b, m in itertools.product(vals[:14], vals[:9] if "pow" in n else vals[:14], (1, 2, 7, P, 0)):
        if "pow" in n and (b < 0 or m == 0):
            continue
        cmp("%s(%d,%d,%d)" % (n, a, b, m), run(lambda x, y, z: getattr(x, n)(y, z), *[SB._of(Poly.const(v)) for v in (a, b, m)]),
            run(lambda x, y, z: getattr(x, n)(y, z), rb(a), rb(b), rb(m)))
for v in (0, 1, -1, 1 << 62, 1 << 63, (1 << 63) + 1, 1 << 70, -(1 << 63) - 1, True, None, 1.0, "1", b"1"):
    cmp("Bn(%r)" % (v,), run(SB, v), run(RB, v))
for s in ("12", "-3", "0"):
    cmp("from_decimal %r" % s, run(SB.from_decimal, s), run(RB.from_decimal, s))
for s in ("12", "FF", "-a"):
    cmp("from_hex %r" % s, run(SB.from_hex, s), run(RB.from_hex, s))
for s in (b"", b"\0", b"\1\2"):
    cmp("from_binary %r" % s, run(SB.from_binary, s), run(RB.from_binary, s))
for n in (1, 2, 3, 200):
    for _ in range(5):
        r = int(RB(n).random())
        cmp("random(%d)" % n, True, 0 <= r < n)

# ------------------------------------------------------------------ curve points
ks = [0, 1, 2, P - 1, 5, rng.randrange(P), rng.randrange(P)]
for nid in CURVES:
    q = CURVES[nid][0]
    sg, rg = SE.EcGroup(nid), rec.EcGroup(nid)
    cmp("order %d" % nid, norm(sg.order()), norm(rg.order()))
    mk = {k: (SE.EcPt._of(sg, Poly.const(k)), rb(k) * rg.generator()) for k in ks}
    back = {}
    for k in ks:
        cmp("export length %d" % nid, k % q == 0 or len(mk[k][0].export()) == 16 or len(mk[k][0].export()) == len(mk[k][1].export()),
            True)

    def same(what, s, r):
        cmp(what, True, (rb(s.d.const_val()) * rg.generator() == r))
    for a, b in itertools.product(ks, ks):
        (sa, ra), (sb, rb_) = mk[a], mk[b]
        same("pt+", sa + sb, ra + rb_)
        same("pt-", sa - sb, ra - rb_)
        cmp("pt== %d %d" % (a, b), bool(sa == sb), ra == rb_)
        cmp("pt!= %d %d" % (a, b), bool(sa != sb), ra != rb_)
        same("sum", sg.sum([sa, sb, sa]), rg.sum([ra, rb_, ra]))
        for w in (0, 3, -2, q, q + 1):
            same("k*pt", w * sb if abs(w) < 2 ** 63 else SB._of(Poly.const(w)) * sb, (rb(w)) * rb_)
            same("wsum", sg.wsum([SB._of(Poly.const(w)), SB._of(Poly.const(5))], [sa, sb]), rg.wsum([rb(w), RB(5)], [ra, rb_]))
    for a in ks:
        sa, ra = mk[a]
        same("neg", -sa, -ra)
        same("double", sa.pt_double(), ra.pt_double())
        cmp("inf", bool(sa.is_infinite()), bool(ra.is_infinite()))
        cmp("group", sa.group == sg, ra.group == rg)
        same("bytes", SE.EcPt.from_binary(sa.export(), sg), rec.EcPt.from_binary(ra.export(), rg))
    for n, f in {"pt*k": lambda G, B, p: p * B(3), "pt+1": lambda G, B, p: p + 1, "pt==1": lambda G, B, p: p == 1,
                 "pt==None": lambda G, B, p: p == None, "wsum short": lambda G, B, p: G.wsum([B(1)], [p, p]),  # noqa
                 "wsum int": lambda G, B, p: G.wsum([1], [p]), "wsum surplus": lambda G, B, p: G.wsum([B(1), B(1)], [p]),
                 "hash": lambda G, B, p: hash(G), "junk": lambda G, B, p: p.from_binary(b"junk", G)}.items():
        cmp("%s %d" % (n, nid), run(f, sg, SB, mk[5][0]), run(f, rg, RB, mk[5][1]))
s1, s2, r1, r2 = SE.EcGroup(713), SE.EcGroup(415), rec.EcGroup(713), rec.EcGroup(415)
cmp("groups", (bool(s1 == s2), bool(s1 == SE.EcGroup(713))), (r1 == r2, r1 == rec.EcGroup(713)))
for n, f in {"==": lambda a, b: a == b, "+": lambda a, b: a + b, "!=": lambda a, b: a != b}.items():
    cmp("across groups " + n, run(f, s1.generator(), s2.generator()), run(f, r1.generator(), r2.generator()))

# ------------------------------------------------------------------ pairing groups
sp, rp = SBP.BpGroup(), rbp.BpGroup()
cmp("bp order", norm(sp.order()), norm(rp.order()))
gens = {"G1": (SBP.G1Elem, rp.gen1(), rbp.G1Elem), "G2": (SBP.G2Elem, rp.gen2(), rbp.G2Elem),
        "GT": (SBP.GTElem, rp.pair(rp.gen1(), rp.gen2()), rbp.GTElem)}
kb = [1, 2, BP_ORDER - 1, rng.randrange(BP_ORDER)]
for n, (scls, rgen, rcls) in gens.items():
    gt = n == "GT"
    up = (lambda e, k: e ** rb(k)) if gt else (lambda e, k: rb(k) * e)
    neutral = rcls.one(rp) if gt else rcls.inf(rp)

    def same(what, s, r):
        k = s.d.const_val()
        cmp(what + " " + n, True, (up(rgen, k) if k % BP_ORDER else neutral) == r)
    for a, b in itertools.product(kb, kb):
        sa, sb = scls._of(sp, Poly.const(a)), scls._of(sp, Poly.const(b))
        ra, rb_ = up(rgen, a), up(rgen, b)
        cmp("== " + n, bool(sa == sb), ra == rb_)
        cmp("!= " + n, bool(sa != sb), ra != rb_)
        if gt:
            same("*", sa * sb, ra * rb_)
            same("**", sa ** SB._of(Poly.const(b)), ra ** rb(b))
            same("inv", sa.inv(), ra.inv())
        else:
            same("+", sa + sb, ra + rb_)
            same("-", sa - sb, ra - rb_)
            same("*", sa * SB._of(Poly.const(b)), ra * rb(b))
            same("r*", -3 * sa, -3 * ra)
            same("zero", SB(0) * sa, RB(0) * ra)
            same("neg", -sa, -ra)
            same("double", sa.double(), ra.double())
        same("bytes", scls.from_bytes(sa.export(), sp), rcls.from_bytes(ra.export(), rp))
        cmp("len " + n, len(sa.export()), len(ra.export()))
        if gt:
            x = rp.pair(rb(a) * rp.gen1(), rb(b) * rp.gen2())
            same("pair", sp.pair(SBP.G1Elem._of(sp, Poly.const(a)), SBP.G2Elem._of(sp, Poly.const(b))), x)
cmp("bp groups", bool(sp == SBP.BpGroup()), rp == rbp.BpGroup())
for n, f in {"pair wrong": lambda G, B, c: G.pair(G.gen2(), G.gen1()), "mix": lambda G, B, c: G.gen1() + G.gen2(),
             "eq mix": lambda G, B, c: G.gen1() == G.gen2(), "gt+gt": lambda G, B, c: 1 + G.pair(G.gen1(), G.gen2()),
             "None": lambda G, B, c: G.gen1() * None, "float": lambda G, B, c: G.gen1() * 1.5,
             "hash": lambda G, B, c: hash(G)}.items():
    cmp("bp " + n, run(f, sp, SB, SBP), run(f, rp, RB, rbp))

import z3  # the solver is there
s = z3.Solver()
x = z3.Int("x")
s.add(x > 3, x < 5)
assert s.check() == z3.sat
print("selfcheck: %d comparisons, %d differences" % (done, len(bad)))
for b in bad[:40]:
    print("  " + b)
sys.exit(1 if bad else 0)
