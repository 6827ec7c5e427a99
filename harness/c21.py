"""C21: malformed proofs and messages are never accepted and do no harm."""
from .common import *
from .c01 import prim_kinds

BOUNDS = {"quick": "every position of the responses of and/or trees of up to 3 leaves (large ones: first, last and selected positions) and of every primitive, with elements missing, surplus, doubled, "
          "of another type, emptied or nested differently; malformed challenges, statement hashes, commitments and precommitments of "
          "every primitive; all other parts honest or arbitrary; malformed bytes",
          "thorough": "as quick with 4-leaf trees and compositions of primitives"}
ASSUMES = ["tuples count as lists and integers as numbers (serialization turns one into the other)"]


class Junk:
    pass


def wrongs(ctx, x):
    """(name, value): what can stand in place of x, none of it meaning the same."""
    g = ctx.group(DEF)
    out = [("None", None), ("text", "1"), ("bytes", b"\x01"), ("object", Junk()), ("dict", {}), ("float", 0.5)]
    if isinstance(x, (list, tuple)):
        out += [("number", ctx.int("j", -W, W)), ("point", ctx.point("J", g, inf=True))]
        if len(x) == 2 and all(isinstance(y, (list, tuple)) for y in x) and len(x[0]) == len(x[1]) > 0:
            # sub-challenges and responses of a disjunction
            a, b = x
            out += [("both doubled", (list(a) + [a[-1]], list(b) + [b[-1]])), ("both with zero", (list(a) + [ctx.const(0)], list(b) + [b[-1]])),
                    ("both without last", (list(a[:-1]), list(b[:-1]))), ("both without first", (list(a[1:]), list(b[1:]))),
                    ("both with number", (list(a) + [ctx.int("j", 0, (1 << 128) - 1)], list(b) + [b[0]]))]
        if x:
            out += [("empty", []), ("without last", list(x[:-1])), ("without first", list(x[1:])), ("doubled last", list(x) + [x[-1]]),
                    ("doubled first", [x[0]] + list(x)), ("with None", list(x) + [None]), ("with number", list(x) + [ctx.int("j", -W, W)]),
                    ("with zero", list(x) + [ctx.const(0)]), ("with list", list(x) + [[]]), ("twice", list(x) + list(x))]
            if len(x) > 1 or not isinstance(x[0], (list, tuple)):
                out += [("nested", [list(x)])]
            if len(x) > 1:
                out += [("first only", x[0])]
        else:
            out += [("with number", [ctx.int("j", -W, W)])]
    else:
        out += [("list", [x]), ("empty list", []), ("point", ctx.point("J", g, inf=True)), ("pair", (x, x))]
    return out


FEW = ("None", "text", "point", "number", "without last", "with number", "doubled last", "nested", "list", "empty", "both with number", "both without last")


def some(ctx, x, few):
    return [w for w in wrongs(ctx, x) if not few or w[0] in FEW]


def places(r, lists):
    return [p for p in nodes(r) if not lists or isinstance(at(r, p), (list, tuple, dict))]


def nodes(r, pre=()):
    """Paths of all nodes (inner and leaf) of a nested list."""
    out = [pre]
    if isinstance(r, dict):
        for k in sorted(r):
            out += nodes(r[k], pre + (k,))
    elif isinstance(r, (list, tuple)):
        for n, x in enumerate(r):
            out += nodes(x, pre + (n,))
    return out


def refused(ctx, fn, *a):
    ctx.check(not ctx.accepts(fn, *a), "a malformed proof is not accepted")


def honest_altered(ctx, tree, few=False):
    """An honest proof with one node of its responses malformed; the verifier keeps working."""
    env = Env(ctx)
    p = Side(env, "p")
    m = ctx.text("m")
    n = p.build(tree).prove(p.dict, message=m)
    path = ctx.choose("where", nodes(n.responses))
    name, bad = ctx.choose("what", some(ctx, at(n.responses, path), few))
    v = Side(env, "v").build(tree)
    NZ = ctx.zk.NIZK
    refused(ctx, v.verify, NZ(n.challenge, replace_at(n.responses, path, bad), n.precommitment, n.stmt_hash), m)
    if not few:
        ctx.check(v.verify(n, message=m), "the proper proof is accepted afterwards")


def adversarial(ctx, tree, flow, few=False):
    """All other values arbitrary: even a prover that chooses everything cannot use a malformed response."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    r = a.responses()
    path = ctx.choose("where", places(r, few))
    name, bad = ctx.choose("what", some(ctx, at(r, path), few))
    r = replace_at(r, path, bad)
    if flow == "run":
        c = ctx.int("c", 0, (1 << 128) - 1)
        ctx.check(not a.run(c, r), "a malformed response is not accepted")
    else:
        st, v = a.verifier()
        n = ctx.zk.NIZK(ctx.int("c", 0, (1 << 256) - 1), r, a.pre, st.prehash_statement().digest())
        refused(ctx, Side(env, "v").build(tree).verify, n)


def parts(ctx, tree, what, few=False):
    """Challenge, hash, precommitment or the whole proof of another type."""
    env = Env(ctx)
    p = Side(env, "p")
    m = ctx.text("m")
    n = p.build(tree).prove(p.dict, message=m)
    v = Side(env, "v").build(tree)
    NZ = ctx.zk.NIZK
    if what == "precommitment":
        path = ctx.choose("where", nodes(n.precommitment))
        old = at(n.precommitment, path)
        name, bad = ctx.choose("what", some(ctx, old, few))
        if bad is None and old is None:
            raise Skip()
        if name == "point" and type(old) is type(bad):
            c = bad == old
            ctx.assume(~c if ctx.sym and not isinstance(c, bool) else not c)
        refused(ctx, v.verify, NZ(n.challenge, n.responses, replace_at(n.precommitment, path, bad), n.stmt_hash), m)
    elif what == "challenge":
        name, bad = ctx.choose("what", wrongs(ctx, n.challenge))
        refused(ctx, v.verify, NZ(bad, n.responses, n.precommitment, n.stmt_hash), m)
    elif what == "hash":
        name, bad = ctx.choose("what", wrongs(ctx, n.stmt_hash) + [("short", bytes(n.stmt_hash)[:-1]), ("long", bytes(n.stmt_hash) + b"\0")])
        refused(ctx, v.verify, NZ(n.challenge, n.responses, n.precommitment, bad), m)
    elif what == "proof":
        bad = ctx.choose("what", [None, "proof", b"", 1, [], {}, Junk(), [n], (n.challenge, n.responses, n.precommitment, n.stmt_hash),
                                  n.serialize(), NZ(None, None), NZ(None, None, None, None), NZ([], []), NZ(n.challenge, n.responses)])
        refused(ctx, v.verify, bad, m)
    elif what == "order":
        f = [n.challenge, n.responses, n.precommitment, n.stmt_hash]
        perm = ctx.choose("what", [x for x in itertools.permutations(range(4)) if x != (0, 1, 2, 3)])
        refused(ctx, v.verify, NZ(*[f[i] for i in perm]), m)
    elif what == "bytes":
        raw = n.serialize()
        import msgpack
        l = list(msgpack.unpackb(raw))
        alts = [raw[:-1], raw[1:], raw + b"\0", b"", b"\x00", b"\x90", msgpack.packb(l[:3]), msgpack.packb(l + [l[0]]), msgpack.packb(l[::-1]),
                msgpack.packb([l[0], l[0], l[2], l[3]]), msgpack.packb([l[0], l[1], l[2], None]), msgpack.packb({}), msgpack.packb(None),
                msgpack.packb([l]), msgpack.packb([l[1], l[1], l[1], l[1]])]
        bad = ctx.choose("what", alts)
        refused(ctx, lambda b: v.verify(ctx.zk.NIZK.deserialize(b), message=m), bad)
    k, ok = ctx.attempt(lambda: v.verify(n, message=m))
    ctx.check(k == "ok" and ok, "the proper proof is accepted afterwards")


def commitment(ctx, tree, few=False):
    """Malformed commitments in an interactive run, the rest honest."""
    env = Env(ctx)
    p = Side(env, "p")
    pr = p.build(tree).get_prover(p.dict)
    st = Side(env, "v").build(tree)
    ve = st.get_verifier()
    ve.process_precommitment(pr.precommit())
    h, com = pr.commit()
    path = ctx.choose("where", nodes([h, com]))
    if len(path) == 2 and path[0] == 0:
        raise Skip()
    old = at([h, com], path)
    name, bad = ctx.choose("what", some(ctx, old, few))
    if name == "point" and type(old) is type(bad):
        c = bad == old
        ctx.assume(~c if ctx.sym and not isinstance(c, bool) else not c)
    k, ch = ctx.attempt(ve.send_challenge, tuple(replace_at([h, com], path, bad)) if path else bad)
    if k != "ok":
        ctx.check(True, "refused")
        raise Skip()
    refused(ctx, ve.verify, pr.compute_response(ch))


def precommitment(ctx, tree, flow, few=False):
    """A prover that chooses everything else cannot use a malformed precommitment."""
    env = Env(ctx)
    env.explicit_generators = True
    a = Adversary(ctx, env, tree)
    good = a.pre
    path = ctx.choose("where", nodes(good))
    old = at(good, path)
    name, bad = ctx.choose("what", some(ctx, old, few))
    if old is None:
        # what is sent for a leaf without precommitment is bound by the challenge only
        raise Skip()
    if name.startswith("doubled") or name.startswith("with ") or name == "twice":
        # surplus entries that nothing refers to are bound by the challenge and do no harm, except within a primitive
        if ("c" in tree or tree["k"] == "R") and len(path) == 0:
            raise Skip()
    if name == "point" and type(old) is type(bad):
        raise Skip()
    a.pre = replace_at(good, path, bad)
    r = a.responses()
    if flow == "run":
        c = ctx.int("c", 0, (1 << 128) - 1)
        ctx.check(not ctx.accepts(a.run, c, r), "a malformed precommitment is not accepted")
    else:
        k, h = ctx.attempt(lambda: a.verifier()[0].prehash_statement().digest())
        n = ctx.zk.NIZK(ctx.int("c", 0, (1 << 256) - 1), r, a.pre, h if k == "ok" else b"0" * 32)
        refused(ctx, Side(env, "v").build(tree).verify, n)


def sequence(ctx, tree, what):
    """Protocol steps left out or repeated out of order by the other side."""
    env = Env(ctx)
    p = Side(env, "p")
    pr = p.build(tree).get_prover(p.dict)
    ve = Side(env, "v").build(tree).get_verifier()
    pre = pr.precommit()
    com = pr.commit()
    if what == "no challenge":
        ve.process_precommitment(pre)
        r = pr.compute_response(ctx.int("c", 0, (1 << 128) - 1))
        refused(ctx, ve.verify, r)
    elif what == "no precommitment":
        k, ch = ctx.attempt(ve.send_challenge, com)
        if k == "ok" and any(l["k"] in "NPRBX" for l in leaves(tree)):
            refused(ctx, ve.verify, pr.compute_response(ch))
        else:
            ctx.check(True, "refused")
    elif what == "commitment later":
        # another commitment after the challenge is known
        ve.process_precommitment(pre)
        d = ve.send_challenge(com)
        pr2 = p.build(tree).get_prover(p.dict)
        pr2.precommit()
        pr2.commit()
        r = pr2.compute_response(d)
        e = same_value(ctx, com[1], pr2_com(ctx, env, tree, pre, d, r))
        ctx.assume(~e if ctx.sym and not isinstance(e, bool) else not e)
        refused(ctx, ve.verify, r)


def pr2_com(ctx, env, tree, pre, d, r):
    st = Side(env, "v").build(tree)
    st.get_verifier().process_precommitment(pre)
    return st.recompute_commitment(d, r)


def cases(tier):
    out = []
    quick = tier == "quick"
    def known(t):
        return dict(t, c=[known(c) for c in t["c"]]) if "c" in t else dict(t, ok=1)
    pub = public_trees(2, share=True) + [fill(sh, [D(i, ok=0) for i in range(3)]) for sh in shapes(3)] + [D(0, 1, ok=0), D(0, 1, 2, ok=0)]
    if not quick:
        pub += [fill(sh, [D(i, ok=0) for i in range(4)]) for sh in shapes(4)]
    for t in pub:
        c = len(leaves(t))
        few = c > 2 and quick
        out.append(case("altered " + show(t), "honest_altered", tree=known(t), few=few, cost=4 * c))
        out.append(case("adversarial " + show(t), "adversarial", tree=t, flow="nizk", few=few, cost=3 * c))
        out.append(case("adversarial run " + show(t), "adversarial", tree=t, flow="run", few=few, cost=3 * c))
        out.append(case("commitment " + show(t), "commitment", tree=known(t), few=few, cost=3 * c))
        for w in ("challenge", "hash", "proof", "order", "bytes") if c < 3 or not quick else ():
            out.append(case("%s %s" % (w, show(t)), "parts", tree=known(t), what=w, cost=c))
        for w in ("no challenge", "commitment later"):
            out.append(case("%s %s" % (w, show(t)), "sequence", tree=known(t), what=w, cost=c))
    for k in prim_kinds(tier):
        if quick and k.get("b") == 5:
            continue
        u = dict(k, ok=0)
        big = 6 + 10 * (k["k"] in "RPB")
        few = quick and k["k"] in "RPBX"
        out.append(case("altered " + show(k), "honest_altered", tree=k, few=few, cost=3 * big))
        if k["k"] != "X":
            for flow in ("nizk", "run"):
                if not quick or flow == "nizk":
                    out.append(case("adversarial %s %s" % (flow, show(u)), "adversarial", tree=u, flow=flow, few=few, cost=3 * big))
                if not quick or flow == "nizk" or k["k"] in "NP":
                    out.append(case("precommitment %s %s" % (flow, show(u)), "precommitment", tree=u, flow=flow, few=few and k["k"] != "P", cost=3 * big))
                if k["k"] == "N" or k["k"] != "R" and not quick:
                    t = OR(u, D(5, ok=0))
                    out.append(case("precommitment %s %s" % (flow, show(t)), "precommitment", tree=t, flow=flow, few=few, cost=3 * big))
        for t in [k, AND(k, D(5)), OR(D(5, ok=0), k)]:
            if t is not k and (k["k"] == "X" or quick and (k["k"] in "RB" or k.get("n") == 2)):
                continue
            for w in ("precommitment", "challenge", "hash", "proof", "order", "bytes") if t is k else ("precommitment",):
                if quick and k["k"] == "X" and (w not in ("precommitment", "bytes") or k["inner"] == "and"):
                    continue
                out.append(case("%s %s" % (w, show(t)), "parts", tree=t, what=w, few=few, cost=big))
        out.append(case("commitment " + show(k), "commitment", tree=k, few=few, cost=big))
        for w in ("no challenge", "no precommitment"):
            out.append(case("%s %s" % (w, show(k)), "sequence", tree=k, what=w, cost=big))
    for name, t in big_trees(6, 4).items():
        out.append(case("altered large " + name, "honest_altered", tree=t, few=True, cost=40))
        out.append(case("adversarial large " + name, "adversarial", tree=unknown(t), flow="nizk", few=True, cost=40))
    return out
