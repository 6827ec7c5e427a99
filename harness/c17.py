"""C17: accepted proofs of possession of a BBS+ signature show a signature on the hidden messages.

From two accepting transcripts with challenge difference dc the check derives (all modulo the prime group order)
    (1)  dc*A1 = r1*g1 + r2*g2,                  (2)  d1*g1 + d2*g2 = e*A1,
    (3)  e(A2, w)^dc * e(A2, h0)^e = e(dc*g0 + s*g1 + sum m_i*g_i, h0) * e(r1*g2, w) * e(d1*g2, h0)
for the extracted differences r1, r2, d1, d2, e, s, m_i.  Lemma (by hand): dividing by dc, (1) and (2) give
(d1/dc - (e/dc)(r1/dc)) g1 + (d2/dc - (e/dc)(r2/dc)) g2 = 0; unless this shows a relation between g1 and g2,
d1/dc = (e/dc)(r1/dc), and (3) says that A = A2 - (r1/dc)*g2 satisfies e(A, w + (e/dc) h0) = e(g0 + (s/dc) g1 +
sum (m_i/dc) g_i, h0): (A, e/dc, s/dc) is a signature on the m_i/dc."""
from .common import *
from .trees import explicit_keypair, sign

BOUNDS = {"quick": "statements on 1-2 (selected: 6) messages (secrets shared between messages and with representations in the same conjunction), alone and in "
          "and/or trees of up to 2 other leaves; all keys, precommitments, commitments, challenge pairs and responses; honest provers with a "
          "signature of which one component or message is wrong; statements under another key",
          "thorough": "as quick with 3 and 4 messages and trees of 3 other leaves"}
ASSUMES = ["generators are pairwise different, not neutral and otherwise arbitrary; challenges are not zero modulo the group order (negligible)"]


def sound(ctx, tree, nizk):
    (sound_nizk if nizk else sound_interactive)(ctx, tree)


def wrong(ctx, n, what, flow, bind, comp):
    """A prover with a signature that does not verify, or for other messages, is not accepted."""
    zk = ctx.zk
    bp = zk.BilinearGroupPair()
    q = bp.G1.order()
    kp = explicit_keypair(ctx, bp, n + 2)
    for i, a in enumerate(kp.pk.generators):
        ctx.assume(ne(ctx, a))
        for b in kp.pk.generators[:i]:
            c = a == b
            ctx.assume(~c if ctx.sym and not isinstance(c, bool) else not c)
    ms = [ctx.scalar("m", q) for _ in range(n)]
    creator = zk.BBSPlusSignatureCreator(kp.pk)
    sig = creator.obtain_signature(sign(ctx, kp, creator.commit(list(ms), zkp=False).com_message, q))
    ctx.assume(ne(ctx, sig.A))
    A, e, s, pk = sig.A, sig.e, sig.s, kp.pk
    if what == "A":
        A = sig.A + ctx.int("D", 1, int(q) - 1) * bp.G1.generator()
    elif what == "e":
        e = ctx.scalar("e", q)
        ctx.assume(e != sig.e)
    elif what == "s":
        s = ctx.scalar("s", q)
        ctx.assume(s != sig.s)
    elif what == "key":
        w = ctx.scalar("gamma2", q) * pk.h0
        c = w == pk.w
        ctx.assume(~c if ctx.sym and not isinstance(c, bool) else not c)
        c = sig.A.pair(w) == sig.A.pair(pk.w)
        ctx.check(~c if ctx.sym and not isinstance(c, bool) else not c, "lemma: different keys pair differently")
        pk = zk.BBSPlusPublicKey(w=w, h0=pk.h0, generators=list(pk.generators))
    else:
        v = ctx.scalar("mm", q)
        ctx.assume(v != ms[what])
        ms[what] = v

    def mk(p):
        xs = [zk.Secret(value=m) if p else zk.Secret() for m in ms]
        g = zk.BBSPlusSignature(A=A, e=e, s=s) if p else None
        st = zk.BBSPlusSignatureStmt(([zk.Secret(), zk.Secret()] if bind else []) + xs, pk, g, binding=bool(bind))
        b = bp.G1.generator()
        if comp:
            st = zk.AndProofStmt(st, zk.DLRep(ms[0] * b, xs[0] * b))
        return st
    st, v = mk(1), mk(0)
    if flow:
        k, r = ctx.attempt(lambda: run_interactive(ctx, st.get_prover(), v.get_verifier()))
        ok, c = (bool(r[0]), r[3]) if k == "ok" else (False, None)
    else:
        k, nz = ctx.attempt(st.prove)
        ok, c = (ctx.accepts(v.verify, nz), nz.challenge) if k == "ok" else (False, None)
    if ok:
        ctx.assume(nonzero(ctx, c, q))          # a challenge of zero comes up with negligible probability
    ctx.check(not ok, "a wrong signature does not make an accepted proof")


def cases(tier):
    b = lambda *s, **o: B(*s, ok=0, **o)
    d = lambda *i, **o: D(*i, ok=0, **o)
    ts = [b(0), b(0, 1), b(0, 0), b(0, bind=0), b(0, 1, bind=0), AND(b(0), d(0, g="G1")), AND(d(1), b(0, 1)), AND(b(0, 1), d(0, 1, g="G2")), OR(b(0), d(1)), OR(d(1), b(0, 2)),
          AND(b(0, bind=0), d(1, g="GT")), AND(OR(b(0), d(1)), d(2)), OR(AND(b(0), d(0, g="G1")), d(1)), AND(b(0), b(0)), AND(b(0), N(0, ok=0, bind=1, g="G1"))]
    if tier != "quick":
        ts += [b(0, 1, 2), b(0, 1, 0), b(0, 1, 2, 3), AND(b(0, 1, 2), d(1, g="G1"), d(2, g="G2")), OR(b(0), b(1)), AND(b(0, 1), b(1, 0)), AND(OR(b(0), b(1)), d(2), d(3))]
    out = []
    for t in ts:
        cost = 4 * len(leaves(t)) + sum(len(l["s"]) for l in leaves(t))
        out.append(case("interactive " + show(t), "sound", tree=t, nizk=False, cost=cost))
        out.append(case("nizk " + show(t), "sound", tree=t, nizk=True, cost=cost))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for what in ["A", "e", "s", "key"] + list(range(n)):
            for flow in (0, 1):
                for bind in (0, 1):
                    for comp in (0, 1):
                        if comp and (what == "key" or bind == 0 and n > 1):
                            continue
                        out.append(case("wrong %d %s flow%d bind%d comp%d" % (n, what, flow, bind, comp), "wrong", n=n, what=what, flow=flow, bind=bind, comp=comp, cost=n))
    for t in (b(*range(6)), b(0, 1, 2, 3, 4, 0), AND(b(*range(6)), d(5, g="G1"))):
        out.append(case("interactive large " + show(t), "sound", tree=t, nizk=False, cost=40))
    return out
