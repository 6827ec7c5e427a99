"""C16: BBS+ signatures verify exactly for what was signed; blind issuance commits to known messages."""
from .common import *
from .trees import explicit_keypair, sign

BOUNDS = {"quick": "1-3 (selected cases: 6) messages (any integers up to 260 bits), up to 2 spare generators; every signature component and message replaced by any other "
          "value; other keys; too few, too many or permuted messages; creators used for up to 3 commitments; adversarial blinding proofs "
          "with 1-4 responses; all keys, messages and coins",
          "thorough": "as quick with 5 messages"}
ASSUMES = ["generators are pairwise different, not neutral and otherwise arbitrary; secret keys are not zero; e + gamma and the signed product are "
           "not zero (negligible)"]


class Setup:
    def __init__(self, ctx, n, spare=0, wide=False, own=False):
        self.ctx = ctx
        self.bp = ctx.zk.BilinearGroupPair()
        self.q = self.bp.G1.order()
        self.own = own
        self.kp = self.key(n, spare)
        self.ms = [ctx.int("m", -(1 << 260), 1 << 260) if wide else ctx.scalar("m", self.q) for _ in range(n)]

    def key(self, n, spare=0):
        kp = self.ctx.zk.BBSPlusKeypair.generate(self.bp, n + spare) if self.own else explicit_keypair(self.ctx, self.bp, n + spare + 2)
        self.ctx.assume(ne(self.ctx, kp.pk.w))
        g = list(kp.pk.generators)
        for i, a in enumerate(g):
            self.ctx.assume(ne(self.ctx, a))
            for b in g[:i]:
                self.ctx.assume(a != b)
        return kp

    def issue(self, zkp, creator=None, kp=None, ms=None):
        zk = self.ctx.zk
        kp = kp or self.kp
        c = creator or zk.BBSPlusSignatureCreator(kp.pk)
        com = c.commit(list(self.ms if ms is None else ms), zkp=zkp)
        sig = c.obtain_signature(sign(self.ctx, kp, com.com_message, self.q))
        self.ctx.assume(ne(self.ctx, sig.A))
        return sig, com, c


def valid(ctx, n, spare, zkp, wide):
    """Honest issuance gives a signature on exactly these messages, blinded or not."""
    s = Setup(ctx, n, spare, wide, True)
    sig, com, c = s.issue(zkp)
    ctx.check(sig.verify_signature(s.kp.pk, list(s.ms)), "the signature verifies")
    if zkp:
        ctx.check(com.verify_blinding(s.kp.pk), "the blinding proof verifies")
    else:
        k, r = ctx.attempt(com.verify_blinding, s.kp.pk)
        ctx.check(k == "exc" or not r, "no blinding proof, no acceptance")
    # messages count modulo the group order
    red = [m % s.q for m in s.ms]
    ctx.check(sig.verify_signature(s.kp.pk, red), "messages count modulo the group order")


def history(ctx, kinds):
    """A creator can be used again: the last commitment decides."""
    s = Setup(ctx, 2)
    c = ctx.zk.BBSPlusSignatureCreator(s.kp.pk)
    for n, zkp in enumerate(kinds):
        ms = [ctx.scalar("m%d" % n, s.q) for _ in range(2)]
        last = n == len(kinds) - 1
        if last:
            sig, com, _ = s.issue(zkp, c, ms=ms)
        else:
            c.commit(list(ms), zkp=zkp)
    ctx.check(sig.verify_signature(s.kp.pk, list(ms)), "the signature verifies")


def altered(ctx, n, what, zkp):
    """A signature with one component (or message) replaced verifies only when nothing changed (mod q)."""
    s = Setup(ctx, n)
    sig, com, c = s.issue(zkp)
    ms = list(s.ms)
    A, e, t = sig.A, sig.e, sig.s
    if what == "A":
        A2 = ctx.bp_point("A", s.bp.G1, inf=True)
        same = A2 == A
        A = A2
    elif what == "e":
        e2 = ctx.int("e", -(1 << 260), 1 << 260)
        same = mod0(e2 - e, s.q)
        e = e2
    elif what == "s":
        s2 = ctx.int("s", -(1 << 260), 1 << 260)
        same = mod0(s2 - t, s.q)
        t = s2
    else:
        m2 = ctx.int("mm", -(1 << 260), 1 << 260)
        same = mod0(m2 - ms[what], s.q)
        ms[what] = m2
    equal = ctx.flag("equal")
    ctx.assume(same if equal else ~same if ctx.sym and not isinstance(same, bool) else not same)
    ok = ctx.accepts(ctx.zk.BBSPlusSignature(A=A, e=e, s=t).verify_signature, s.kp.pk, ms)
    ctx.check(ok == equal, "an equal signature verifies" if equal else "an altered signature does not verify")


def otherkey(ctx, n, zkp, field):
    """A signature does not verify under another key."""
    s = Setup(ctx, n)
    sig, com, c = s.issue(zkp)
    zk = ctx.zk
    pk = s.kp.pk
    if field == "w":
        w = ctx.bp_point("w", s.bp.G2, inf=True)
        ctx.assume(w != pk.w)
        pk2 = zk.BBSPlusPublicKey(w=w, h0=pk.h0, generators=list(pk.generators))
    elif field == "fresh":
        gamma = ctx.scalar("gamma2", s.q)
        w = gamma * pk.h0
        ctx.assume(w != pk.w)
        pk2 = zk.BBSPlusPublicKey(w=w, h0=pk.h0, generators=list(pk.generators))
    else:
        g = list(pk.generators)
        g[field] = ctx.bp_point("g", s.bp.G1, inf=True)
        ctx.assume(g[field] != pk.generators[field])
        if field:
            f = ([sig.s] + list(s.ms))[field - 1]
            ctx.assume(nonzero(ctx, f, s.q))
        pk2 = zk.BBSPlusPublicKey(w=pk.w, h0=pk.h0, generators=g)
    if field in ("w", "fresh"):
        # were both keys fine, then e(A, w2 - w) would be neutral
        c = sig.A.pair(pk2.w) == sig.A.pair(pk.w)
        ctx.check(~c if ctx.sym and not isinstance(c, bool) else not c, "lemma: different keys pair differently")
    ok = ctx.accepts(sig.verify_signature, pk2, list(s.ms))
    ctx.check(not ok, "a signature does not verify under another key")


def count(ctx, n, spare, how, zkp):
    """Too many, too few or permuted messages are refused unless they say the same."""
    s = Setup(ctx, n, spare)
    sig, com, c = s.issue(zkp)
    ms = list(s.ms)
    if how == "fewer":
        extra = ms.pop()
        ctx.assume(nonzero(ctx, extra, s.q))
    elif how == "more":
        x = ctx.scalar("extra", s.q)
        ctx.assume(x != 0)
        ms.append(x)
    elif how == "beyond":
        # more messages than the key has generators for, the surplus ones of any value
        ms += [ctx.scalar("extra", s.q) for _ in range(len(s.kp.pk.generators) - 1 - len(ms))]
    elif how == "swap":
        ctx.assume(ms[0] != ms[1])
        ms[0], ms[1] = ms[1], ms[0]
    ctx.check(not ctx.accepts(sig.verify_signature, s.kp.pk, ms), "another message list is refused")


def blind_sound(ctx, n, k):
    """An accepted blinding proof shows an opening of the commitment (two answers to one oracle query)."""
    s = Setup(ctx, n, 2)
    zk, pk, q = ctx.zk, s.kp.pk, s.q
    com = ctx.bp_point("C", s.bp.G1, inf=True)
    honest = zk.BBSPlusSignatureCreator(pk).commit([ctx.scalar("h", q) for _ in range(n)], zkp=True).com_nizk_proof
    out = []
    pre = honest.precommitment
    for j in (1, 2):
        ctx.fork_oracle(j)
        c = ctx.int("c%d" % j, 0, (1 << 256) - 1)
        r = [ctx.int("r", -W, W) for _ in range(k)]
        st = zk.DLRep(com, zk.wsum_secrets([zk.Secret() for _ in range(k)], pk.generators[1:k + 1]))
        n_ = zk.NIZK(c, r, pre, st.prehash_statement().digest())
        if not ctx.accepts(zk.UserCommitmentMessage(com_message=com, com_nizk_proof=n_).verify_blinding, pk):
            ctx.check(True, "rejected")
            raise Skip()
        out.append((c, r, ctx.last_query()))
    (c1, r1, q1), (c2, r2, q2) = out
    ctx.assume(ctx.same_query(q1, q2))
    ctx.assume((c1 - c2) % ctx.const(1 << 128) != 0)
    ctx.assume((c1 - c2) % ctx.const(int(q)) != 0)
    d = diffs(r1, r2)
    tot = None
    for x, g in zip(d, pk.generators[1:]):
        tot = x * g if tot is None else tot + x * g
    ctx.check(nonzero(ctx, c1 - c2, q) & ((c1 - c2) * com == tot) if ctx.sym else (c1 - c2) * com == tot,
              "an accepted blinding proof shows an opening")


def blind_altered(ctx, n, what):
    """An honest blinding proof does not fit another commitment, and no part of it can be replaced."""
    s = Setup(ctx, n)
    zk, pk, q = ctx.zk, s.kp.pk, s.q
    com = zk.BBSPlusSignatureCreator(pk).commit(list(s.ms), zkp=True)
    p = com.com_nizk_proof
    msg = com.com_message
    r, c = list(p.responses), p.challenge
    if what == "com":
        msg = ctx.bp_point("C", s.bp.G1, inf=True)
        ctx.assume(msg != com.com_message)
    elif what == "challenge":
        c = ctx.int("c", 0, (1 << 256) - 1)
        ctx.assume(c != p.challenge)
        ctx.guess(c)
    elif what == "drop":
        r = r[:-1]
    elif what == "add":
        r = r + [ctx.int("r", -W, W)]
    else:
        x = ctx.int("r", -W, W)
        ctx.assume(nonzero(ctx, x - r[what], q))
        r[what] = x
    m = zk.UserCommitmentMessage(com_message=msg, com_nizk_proof=zk.NIZK(c, r, p.precommitment, p.stmt_hash))
    ctx.check(not ctx.accepts(m.verify_blinding, pk), "an altered blinding proof is refused")


def cases(tier):
    out = []
    top = 3 if tier == "quick" else 5
    for n in range(1, top + 1):
        for zkp in (False, True):
            for wide in (False, True):
                for spare in (0, 2):
                    out.append(case("valid %d+%d zkp%d wide%d" % (n, spare, zkp, wide), "valid", n=n, spare=spare, zkp=zkp, wide=wide, cost=n))
            for what in ["A", "e", "s"] + list(range(n)):
                out.append(case("altered %d %s zkp%d" % (n, what, zkp), "altered", n=n, what=what, zkp=zkp, cost=n + 2))
            for field in ["w", "fresh"] + list(range(n + 2)):
                out.append(case("other key %d %s zkp%d" % (n, field, zkp), "otherkey", n=n, zkp=zkp, field=field, cost=n + 2))
            if n > 1:
                out.append(case("fewer %d zkp%d" % (n, zkp), "count", n=n, spare=0, how="fewer", zkp=zkp, cost=n))
                out.append(case("swap %d zkp%d" % (n, zkp), "count", n=n, spare=0, how="swap", zkp=zkp, cost=n))
            for spare in (0, 1, 2):
                if spare:
                    out.append(case("more %d+%d zkp%d" % (n, spare, zkp), "count", n=n, spare=spare, how="more", zkp=zkp, cost=n))
                out.append(case("beyond %d+%d zkp%d" % (n, spare, zkp), "count", n=n, spare=spare, how="beyond", zkp=zkp, cost=n))
        for what in ["com", "challenge", "drop", "add"] + list(range(n + 1)):
            out.append(case("blind altered %d %s" % (n, what), "blind_altered", n=n, what=what, cost=n))
        for k in range(1, n + 3):
            out.append(case("blind sound %d with %d" % (n, k), "blind_sound", n=n, k=k, cost=n))
    for L in (1, 2, 3):
        for kinds in itertools.product((False, True), repeat=L):
            out.append(case("history %s" % "".join(str(int(k)) for k in kinds), "history", kinds=kinds, cost=L))
    n = 6
    for zkp in (False, True):
        out.append(case("valid %d zkp%d" % (n, zkp), "valid", n=n, spare=1, zkp=zkp, wide=True, cost=n))
        for what in ("s", 0, n - 2, n - 1):
            out.append(case("altered %d %s zkp%d" % (n, what, zkp), "altered", n=n, what=what, zkp=zkp, cost=n))
        for field in (n - 1, n, n + 1):
            out.append(case("other key %d %s zkp%d" % (n, field, zkp), "otherkey", n=n, zkp=zkp, field=field, cost=n))
        for how in ("fewer", "swap"):
            out.append(case("%s %d zkp%d" % (how, n, zkp), "count", n=n, spare=0, how=how, zkp=zkp, cost=n))
    for what in (n - 1, n):
        out.append(case("blind altered %d %s" % (n, what), "blind_altered", n=n, what=what, cost=n))
    for k in (n, n + 1):
        out.append(case("blind sound %d with %d" % (n, k), "blind_sound", n=n, k=k, cost=n))
    return out
