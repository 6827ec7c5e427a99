"""C10: objects can be reused; earlier proofs and verifications do not change later results."""
from .common import *
from .c01 import prim_kinds, prim_trees

BOUNDS = {"quick": "histories of up to four operations (selected: six proofs verified in mixed order) (prove, refused prove, verify honest/arbitrary proof, simulate elsewhere, "
          "interactive session) on one statement object or on statements sharing secrets or sub-statements; and/or trees of up "
          "to 2 leaves (3 selected) and every primitive; all values, coins and adversarial proofs",
          "thorough": "as quick with all trees of 3 leaves and more primitives"}
ASSUMES = ["one extended-statement object is used by one session at a time (it stores the precommitment of its session), and is not "
           "placed twice into one conjunction"]


def has_ext(t):
    return any(l["k"] != "D" for l in leaves(t))


def proofs(ctx, tree, order):
    """Several proofs from one object, verified by one object in another order, and by fresh ones."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", "prove")
    st = p.build(tree)
    ns = [st.prove(dict(p.dict)) for _ in range(max(order) + 1)]
    v = Side(env, "v").build(tree)
    for n in order:
        ctx.check(v.verify(ns[n]), "every proof is accepted by a verifier used before")
    for n in ns:
        ctx.check(Side(env, "v").build(tree).verify(n), "every proof is accepted by a fresh verifier")


def arbitrary(ctx, env, tree):
    a = Adversary(ctx, env, tree)
    c = ctx.int("c", 0, (1 << 256) - 1)
    st, v = a.verifier()
    return ctx.zk.NIZK(c, a.responses(), a.pre, st.prehash_statement().digest())


def between(ctx, tree, own):
    """A proof is accepted after the verifier saw an arbitrary other one, whose verdict does not depend on
    the order either."""
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    n = st.prove()
    bad = arbitrary(ctx, env, tree)
    v = st if own else Side(env, "v").build(tree)
    ok1 = ctx.accepts(v.verify, bad)
    ctx.check(v.verify(n), "an honest proof is accepted after an arbitrary one")
    ok2 = ctx.accepts(v.verify, bad)
    ctx.check(ok1 == ok2, "the verdict on an arbitrary proof does not depend on proofs seen before")
    if own:
        n2 = st.prove()
        ctx.check(v.verify(n2), "a statement that verified an arbitrary proof still proves")
        ctx.check(Side(env, "v").build(tree).verify(n2), "a statement that verified an arbitrary proof still proves")


def mixed(ctx, tree):
    """Prove, verify, prove, verify in every order, interactive and not, on one object."""
    ctx.distinct_queries()
    env = Env(ctx)
    st = Side(env, "p").build(tree)
    other = Side(env, "v").build(tree)
    ops = ctx.choose("first", [0, 1, 2])
    if ops == 0:
        n = st.prove()
        ctx.check(st.verify(n), "own proof accepted")
        m = st.prove()
        ctx.check(st.verify(m), "own proof accepted")
        if not has_ext(tree):
            ctx.check(st.verify(n), "own earlier proof accepted")
    elif ops == 1:
        ok = run_interactive(ctx, st.get_prover(), other.get_verifier())[0]
        ctx.check(ok, "interactive session accepted")
        ctx.check(other.verify(st.prove()), "non-interactive proof accepted after a session")
        ok = run_interactive(ctx, st.get_prover(), other.get_verifier())[0]
        ctx.check(ok, "second interactive session accepted")
    else:
        n = st.prove()
        ctx.check(run_interactive(ctx, st.get_prover(), other.get_verifier())[0], "session accepted after a proof")
        ctx.check(other.verify(n), "earlier proof still accepted")


def wrong(ctx, tree, order=1):
    """Wrong secret values supplied first are replaced by right ones."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", "prove")
    st = p.build(tree)
    bad = {s: ctx.int("w", 0, 1 << 200) for s in p.dict}
    ctx.attempt(st.prove, bad)
    n = st.prove(dict(p.dict))
    ctx.check(Side(env, "v").build(tree).verify(n), "right values replace wrong ones supplied before")


def refused(ctx, tree):
    """A refused attempt without secrets leaves no trace."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", "prove")
    st = p.build(tree)
    k, r = ctx.attempt(st.prove)
    ctx.check(k == "exc", "without secrets nothing is proven")
    ctx.check(ctx.attempt(st.get_prover)[1] is None, "without secrets there is no prover")
    n = st.prove(dict(p.dict))
    ctx.check(Side(env, "v").build(tree).verify(n), "a refused attempt does not prevent a later proof")
    ctx.check(st.verify(n), "a refused attempt does not prevent a later verification")


def shared(ctx, trees):
    """Several statements over the same secret objects, proven alternately."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", "ctor")
    p.known = {i for t in trees for i in p.known_ids(t)}
    sts = [p.build(t, "t%d" % n) for n, t in enumerate(trees)]
    ns = [(k, sts[k].prove()) for k in list(range(len(trees))) + [0]]
    v = Side(env, "v")
    vs = [v.build(t, "t%d" % n) for n, t in enumerate(trees)]
    for k, n in reversed(ns):
        ctx.check(vs[k].verify(n), "statements sharing secrets do not disturb each other")


def same_sub(ctx, sub, kinds, other):
    """One sub-statement object used in several compositions, or twice in one."""
    ctx.distinct_queries()
    env = Env(ctx)
    sides = []
    for role in "pv":
        s = Side(env, role)
        s.known = s.known_ids(sub) | s.known_ids(other)
        a, b = s.build(sub, "a"), s.build(other, "b")
        zk = ctx.zk
        made = {"self": lambda: a, "and": lambda: zk.AndProofStmt(a, b), "or": lambda: zk.OrProofStmt(a, b),
                "aa": lambda: zk.AndProofStmt(a, a), "oo": lambda: zk.OrProofStmt(a, a),
                "o2": lambda: zk.OrProofStmt(b, a, a), "aoa": lambda: zk.OrProofStmt(zk.AndProofStmt(a, b), a)}
        sides.append([made[k]() for k in kinds])
    ns = [st.prove() for st in sides[0]]
    for v, n, k in zip(sides[1], ns, kinds):
        ctx.check(v.verify(n), "a sub-statement object can be used in several places")
    for st, n in zip(sides[0], ns):
        if not has_ext(sub) and not has_ext(other):
            ctx.check(st.verify(n), "a sub-statement object can be used in several places")


def with_itself(ctx, sub):
    """A conjunction that contains one extended-statement object twice."""
    env = Env(ctx)
    env.explicit_generators = True
    a, b = Side(env, "p").build(sub), Side(env, "v").build(sub)
    zk = ctx.zk
    k, n = ctx.attempt(zk.AndProofStmt(a, a).prove)
    ctx.check(k == "ok" and ctx.accepts(zk.AndProofStmt(b, b).verify, n), "a statement object can occur twice in one conjunction")


def sessions(ctx, tree, same):
    """Two interleaved interactive sessions."""
    ctx.distinct_queries()
    env = Env(ctx)
    ps = Side(env, "p")
    vs = Side(env, "v")
    st1, vt1 = ps.build(tree), vs.build(tree)
    st2, vt2 = (st1, vt1) if same else (Side(env, "p").build(tree), Side(env, "v").build(tree))
    p1, p2, v1, v2 = st1.get_prover(), st2.get_prover(), vt1.get_verifier(), vt2.get_verifier()
    a1, a2 = p1.precommit(), p2.precommit()
    v2.process_precommitment(a2)
    v1.process_precommitment(a1)
    k1, k2 = p1.commit(), p2.commit()
    c1 = v1.send_challenge(k1)
    c2 = v2.send_challenge(k2)
    r2 = p2.compute_response(c2)
    r1 = p1.compute_response(c1)
    ctx.check(v1.verify(r1), "interleaved sessions are accepted")
    ctx.check(v2.verify(r2), "interleaved sessions are accepted")


def verifier_again(ctx, tree):
    """One prover and one verifier object, two sessions one after the other."""
    ctx.distinct_queries()
    env = Env(ctx)
    p, v = Side(env, "p").build(tree).get_prover(), Side(env, "v").build(tree).get_verifier()
    ctx.check(run_interactive(ctx, p, v)[0], "first session")
    ctx.check(run_interactive(ctx, p, v)[0], "second session of the same objects")
    ctx.check(run_interactive(ctx, Side(env, "p").build(tree).get_prover(), v)[0], "third session of the same verifier")


def simulated_elsewhere(ctx, tree):
    """Simulating a composition of a statement does not touch the statement itself."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    other = p.build(D("z", ok=0), "o")
    comp = ctx.choose("how", [ctx.zk.AndProofStmt, ctx.zk.OrProofStmt])(st, other)
    comp.simulate()
    n = st.prove()
    ctx.check(Side(env, "v").build(tree).verify(n), "simulating a composition does not disturb its parts")
    ctx.check(not st.simulated, "simulating a composition does not mark its parts")


def cases(tier):
    out = []
    nmax = 2 if tier == "quick" else 3
    trees = tree_cases(nmax)
    if tier == "quick":
        trees += [AND(D(0), OR(D(1), D(2, ok=0))), OR(AND(D(0), D(1)), D(2)), OR(D(0), D(1, ok=0), D(2)), AND(D(0), D(1), D(0)),
                  OR(OR(D(0, ok=0), D(1)), D(2)), AND(D(0), AND(D(1), D(0)))]
    prims = prim_kinds(tier)
    ck = [N(0), N(0, bind=1), P(1), B(0), X(0, pre="point"), X(0, pre="none"), X(0, pre="list", inner="and")]
    comp = [f for k in (ck if tier == "quick" else prims)
            for f in (AND(k, D(7)), OR(k, D(7)), OR(dict(k, ok=0, s=[8] * len(k["s"])), D(7)))]
    for n, t in enumerate(trees + prims + comp):
        pr = n >= len(trees)
        co = n >= len(trees) + len(prims)
        heavy = any(l["k"] in "RBP" for l in leaves(t))
        cost = 10 if heavy else 2 if pr else 1
        out.append(case("proofs %s" % show(t), "proofs", tree=t, order=[1, 0, 1] if pr or n % 2 or "|" in show(t) else [2, 0, 1, 0], cost=cost))
        if not pr or t["k"] == "X" and t["inner"] != "or" or (t["k"] in "NX" and tier != "quick"):
            for own in (0, 1) if tier != "quick" or len(leaves(t)) < 3 else (0,):
                out.append(case("between own%d %s" % (own, show(t)), "between", tree=t, own=own, cost=3 * cost))
        if tier != "quick" or not heavy or not co and show(t) in ("P:n1", "B0", "R:a3:b4"):
            out.append(case("mixed %s" % show(t), "mixed", tree=t, cost=2 * cost))
        has_secret = any(l["s"] and l.get("ok", 1) for l in leaves(t)) and not all(l["k"] == "B" for l in leaves(t))
        if has_secret and (not heavy or tier != "quick"):
            out.append(case("wrong %s" % show(t), "wrong", tree=t, cost=cost))
        if all(l["k"] in "DNX" for l in leaves(t)):
            out.append(case("refused %s" % show(t), "refused", tree=t, cost=cost))
        if not has_ext(t):
            out.append(case("sessions same %s" % show(t), "sessions", tree=t, same=1, cost=cost))
        out.append(case("sessions apart %s" % show(t), "sessions", tree=t, same=0, cost=cost))
        if not co or not heavy or tier != "quick":
            out.append(case("again %s" % show(t), "verifier_again", tree=t, cost=cost))
        out.append(case("simulated elsewhere %s" % show(t), "simulated_elsewhere", tree=t, cost=cost))
    for ts in ([D(0), D(0, 1)], [D(0), AND(D(0), D(1)), OR(D(0), D(1))], [D(0), N(0), D(0)], [N(0, bind=1), D(0)], [B(0), D(0, g="G1")],
               [B(0), B(0)], [X(0, pre="point"), D(0)], [OR(D(0), D(1, ok=0)), AND(D(0), D(2))], [AND(D(0), D(1)), AND(D(1), D(0))],
               [N(0), N(0)], [B(0, 1), AND(B(0), D(1, g="G1"))]):
        out.append(case("shared " + " ; ".join(map(show, ts)), "shared", trees=ts, cost=4))
    for sub in (N(0), N(0, bind=1), X(0, pre="point", inner="and"), X(0, pre="none"), D(0), AND(D(0), D(1))):
        out.append(case("with itself %s" % show(sub), "with_itself", sub=sub))
    for sub in (D(0), D(0, 1), AND(D(0), D(1)), OR(D(0), D(1, ok=0)), N(0), X(0, pre="point"), P(1), B(0), AND(N(0), D(1)), R(3, 4),
                OR(N(0), D(1, ok=0)), AND(D(1), AND(X(0, pre="point", inner="and"), D(4)))):
        ext = has_ext(sub)
        for other in (D(2), D(2, ok=0)) if not ext else (D(2),):
            for ks in (["self", "and", "or"], ["aa", "oo"], ["o2", "self"], ["aoa", "or"]):
                if ext:
                    ks = [k for k in ks if k != "aa"]
                if sub["k"] == "or":
                    # a secret of a disjunction may not occur outside of it in a conjunction
                    ks = [k for k in ks if k != "aa"]
                if not other.get("ok", 1):
                    ks = [k for k in ks if k not in ("and",)]
                out.append(case("parts %s of %s, %s" % (",".join(ks), show(sub), show(other)), "same_sub", sub=sub, kinds=ks, other=other,
                                cost=6 if ext else 2))
    for t in (D(0), AND(D(0), D(1)), OR(D(0), D(1, ok=0)), N(0), N(0, bind=1), X(0, pre="point"), X(0, pre="none")):
        out.append(case("many proofs %s" % show(t), "proofs", tree=t, order=[4, 0, 3, 1, 2, 5, 0], cost=30))
    for n, t in enumerate(curve_trees()):
        cost = 15 if t["k"] in "RP" else 3
        if t["k"] not in "RP":
            out.append(case("proofs curve " + show(t), "proofs", tree=t, order=[1, 0, 1], cost=cost))
    return out
