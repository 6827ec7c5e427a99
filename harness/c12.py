"""C12: or-proofs choose a provable branch, respect simulation marks, and refuse when nothing is provable."""
from .common import *

BOUNDS = {"quick": "and/or trees with a disjunction of 2-3 leaves (and large ones of 10 branches and 6 levels), every assignment of {known, unknown, known but marked simulated, "
          "false and marked simulated} to the leaves, marks on inner nodes, marks set before composing, through the composed "
          "statement, or at construction; secrets given at creation or when proving; every choice of the random generator; every "
          "built-in primitive and custom extended statements as branches",
          "thorough": "as quick with 4 leaves"}


def run(ctx, tree, how="ctor", flags="before", flow=False):
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", how, flags=flags)
    st = p.build(tree)
    want = provable(tree)
    if flow:
        pr = st.get_prover(dict(p.dict))
        ctx.check((pr is not None) == want, "a prover exists exactly when some alternative is provable")
        if want:
            ctx.check(run_interactive(ctx, pr, Side(env, "v").build(tree).get_verifier())[0], "the session is accepted")
        raise Skip()
    k, n = ctx.attempt(st.prove, dict(p.dict))
    ctx.check((k == "ok") == want, "provable statements are proven, others refused")
    if want:
        ctx.check(Side(env, "v").build(tree).verify(n), "the proof is accepted")


def unmark(ctx, tree, path, first):
    """Withdrawing a mark makes the branch available again; marking it later withdraws it."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p")
    st = p.build(tree)
    sub = st
    for i in path:
        sub = sub.subproofs[i]
    marked = replace_node(tree, path, dict(node(tree, path), sim=1))
    for t in (marked, tree) if first else (tree, marked):
        sub.set_simulated(bool(t is marked))
        ctx.check(sub.simulated == (t is marked), "the mark can be read back")
        k, n = ctx.attempt(st.prove)
        ctx.check((k == "ok") == provable(t), "provable statements are proven, others refused")
        if k == "ok":
            ctx.check(Side(env, "v").build(tree).verify(n), "the proof is accepted")


def originals(ctx, kind, op):
    """Marking the statements a disjunction was made from does not change the disjunction."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p")
    zk = ctx.zk
    p.known = {0} if kind == "one" else {0, 1}
    a = p.build(D(0), "a")
    b = p.build(D(1, ok=0) if kind == "one" else D(1), "b")
    st = (a | b) if op == "op" else zk.OrProofStmt(a, b)
    a.set_simulated()
    if kind != "one":
        b.set_simulated()
    n = st.prove()
    v = Side(env, "v")
    w = zk.OrProofStmt(v.build(D(0), "a"), v.build(D(1, ok=0) if kind == "one" else D(1), "b"))
    ctx.check(w.verify(n), "marks set on the originals later do not change a composed statement")
    st.subproofs[0].set_simulated()
    if kind == "one":
        ctx.check(ctx.attempt(st.prove)[0] == "exc", "nothing left to prove")
    a.set_simulated(False)
    ctx.check(st.subproofs[0].simulated, "marks of the composed statement stay")



def partial(ctx, tree, given):
    """Some secrets at creation, some when proving, some never."""
    ctx.distinct_queries()
    env = Env(ctx)
    p = Side(env, "p", "prove")
    st = p.build(tree)
    dic, have = {}, set()
    for i, s in p.secrets.items():
        if given[i] == 1:
            s.value = None
            dic[s] = env.value(i, env.group(DEF).order())
            have.add(i)
    want = provable(knowing(tree, have))
    k, n = ctx.attempt(st.prove, dic)
    ctx.check((k == "ok") == want, "provable statements are proven, others refused")
    if want:
        ctx.check(Side(env, "v").build(tree).verify(n), "the proof is accepted")


def knowing(t, have):
    if "c" in t:
        return dict(t, c=[knowing(c, have) for c in t["c"]])
    return dict(t, ok=int(all(i in have for i in t["s"])))


def node(t, path):
    for i in path:
        t = t["c"][i]
    return t


def replace_node(t, path, new):
    if not path:
        return new
    c = list(t["c"])
    c[path[0]] = replace_node(c[path[0]], path[1:], new)
    return dict(t, c=c)


def nodes(t, path=()):
    return [path] + [p for n, c in enumerate(t.get("c", [])) for p in nodes(c, path + (n,))]


STATES = {"k": {}, "u": {"ok": 0}, "s": {"sim": 1}, "f": {"sim": 1, "false": 1}}


def cases(tier):
    out = []
    seen = set()

    def add(fn, name, cost=1, **kw):
        if name not in seen:
            seen.add(name)
            out.append(case(name, fn, cost=cost, **kw))
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for sh in shapes(n):
            if "or" not in repr(sh):
                continue
            for combo in itertools.product("kusf", repeat=n):
                if n > 3 and combo.count("k") + combo.count("u") < 3:
                    continue
                t = fill(sh, [D(i, **STATES[c]) for i, c in enumerate(combo)])
                k = len(out)
                add("run", "run %s" % show(t), tree=t, how=("ctor", "prove")[k % 2], flags=("before", "ctor", "before")[k % 3])
                if n == 2 or k % 3 == 0:
                    add("run", "flow %s" % show(t), tree=t, flow=True, flags=("ctor", "before")[k % 2])
            plain = fill(sh, [D(i) for i in range(n)])
            for path in nodes(plain):
                if path and "c" in node(plain, path):
                    for un in [()] + [(i,) for i in range(n)]:
                        t = fill(sh, [D(i, **({"ok": 0} if i in un else {})) for i in range(n)])
                        t = replace_node(t, path, dict(node(t, path), sim=1))
                        for flags in ("before", "after"):
                            add("run", "inner %s %s" % (flags, show(t)), tree=t, flags=flags)
                if path:
                    add("unmark", "unmark %s %s" % (path, show(plain)), tree=plain, path=list(path), first=len(out) % 2, cost=3)
                    one = fill(sh, [D(i, ok=int(i != n - 1)) for i in range(n)])
                    add("unmark", "unmark %s %s" % (path, show(one)), tree=one, path=list(path), first=(len(out) + 1) % 2, cost=3)
    root = OR(D(0), D(1), sim=1)
    add("run", "root marked", tree=root)
    add("run", "root marked flow", tree=root, flow=True)
    # shared secrets between branches, known as a whole
    for pat in ((0, 0), (0, 0, 1), (0, 1, 0)):
        for un in (None,) + tuple(sorted(set(pat))):
            t = OR(*[D(i, **({"ok": 0} if i == un else {})) for i in pat])
            for how in ("ctor", "prove"):
                add("run", "shared %s %s" % (how, show(t)), tree=t, how=how)
    for t in (OR(D(0), D(1)), OR(D(0, 1), D(1, 2)), OR(D(0), AND(D(1), D(2))), OR(D(0), D(1), D(2)), AND(OR(D(0), D(1)), D(2)),
              OR(AND(D(0), D(1)), AND(D(1), D(2)))):
        ids = sorted({i for l in leaves(t) for i in l["s"]})
        for vals in itertools.product((0, 1), repeat=len(ids)):
            if t["c"][0]["k"] == "D" or "c" in t["c"][0]:
                add("partial", "partial %s %s" % (vals, show(t)), tree=t, given=list(vals))
    prims = [N(0), N(0, bind=1), X(0, pre="none", inner="dl"), X(0, pre="point", inner="and"), X(0, pre="list", inner="or"),
             X(0, pre="empty", inner="and"), B(0), B(0, bind=0), P(2), R(3, 5)]
    for k in prims:
        heavy = k["k"] in "BPR"
        for st in "kusf":
            a = dict(k, **STATES[st])
            for d in ("k", "u", "s", "f"):
                e = D(5, **STATES[d])
                for t in (OR(a, e), OR(e, a), OR(AND(a, D(6)), e), OR(AND(e, D(6, ok=0)), a)):
                    if not heavy or (d in "ku" if st != "f" else d == "k") and t["c"][0] is not e or tier != "quick":
                        fl = "ctor" if k["k"] in "DNB" and len(out) % 2 else "before"
                        add("run", "run %s" % show(t), tree=t, flags=fl, cost=8 if heavy else 2)
                if not heavy:
                    add("run", "flow %s" % show(OR(a, e)), tree=OR(a, e), flow=True, flags="after", cost=2)
    # witnesses of which one part is missing
    for k in (B(0, lacks="sig"), B(0, lacks="A"), B(0, bind=0, lacks="sig"), B(0, lacks=0), B(0, bind=0, lacks=0), B(0, 1, lacks=1), B(0, 1, bind=0, lacks=0), P(1, lacks="x"), P(2, lacks="r"),
              R(3, 5, lacks="x"), R(2, 3, lacks="r")):
        for e in (D(5), D(5, ok=0), D(5, sim=1)):
            for t in (OR(k, e), OR(AND(k, D(6)), e), OR(e, k), AND(OR(k, e), D(7))):
                add("run", "incomplete %s" % show(t), tree=t, cost=8)
                if e.get("ok", 1):
                    add("run", "incomplete flow %s" % show(t), tree=t, flow=True, cost=8)
    for kind in ("one", "both"):
        for op in ("op", "cls"):
            add("originals", "originals %s %s" % (kind, op), kind=kind, op=op)
    for n, (name, t) in enumerate(big_trees().items()):
        if "|" in show(t):
            add("run", "large " + name, tree=t, how=("ctor", "prove")[n % 2], cost=10)
            add("run", "flow large " + name, tree=t, flow=True, cost=10)
    return out
