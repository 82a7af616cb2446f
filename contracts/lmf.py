"""Contracts of LMF training (implicit/cpu/lmf.pyx) (C17, C20).  The update of one row (the body of the parallel loop) is stated for
any values of the factors before it."""
from contract import *  # noqa
from als_kernels import ssum
from bpr import generate

MOD = "implicit.cpu.lmf"


def sigmoid(x):
    return ite(le(ZERO, x), div(ONE, add(ONE, app("exp", neg(x)))), div(app("exp", x), add(ONE, app("exp", x))))


@contract(["C17", "C20"], "lmf_update", [MOD + ":lmf_update", MOD + ":sigmoid"])
def lmf_update(c):
    users, items, n = c.dim("users", 1, 3), c.dim("items", 1, 3), c.dim("factors", 1, 3)
    X = c.array("X", (users, n), dtype="float32")
    Y = c.array("Y", (items, n), dtype="float32")
    G = c.array("G", (users, n), dtype="float32", g=lambda r, k, ix: Fraction(r.randint(0, 5)))
    C_ = c.csr("C", users, items, dtype="float32", values=lambda r: Fraction(r.randint(1, 4)))
    nnz = var("nnz_C")
    P, Ix, Da = (lambda x: app("indptr_C", x, sort="I")), (lambda x: app("indices_C", x, sort="I")), (lambda x: app("data_C", x))
    lr, reg, nt, neg_ = c.real("lr"), c.real("reg"), c.integer("threads", 1), c.integer("neg_prop", 0, g=lambda r, k: r.randint(0, 2))
    t = tm.fresh("t")
    c.given(forall([t], implies(and_(le(ZERO, t), lt(t, users)), le(P(t), P(add(t, ONE))))))
    c.integer("thread", 0, g=lambda r, k: 0)
    c.w.models["cython.parallel.threadid"] = lambda ip, a, kw: var("thread")
    c.w.summaries[MOD + ":RNGVector.generate"] = generate(c, sub(nnz, ONE))
    c.hooks["bpr_draw"] = lambda ev, a: random.Random(repr((ev.seed, a))).randint(0, max(0, ev.c["nnz_C"] - 1))
    rng = c.model(MOD, "RNGVector", n=c.integer("drawn", 0))
    rec = c.ip.st.heap[C_.id]
    seen = []

    def observer(ip, i, lo, hi, pre, hav, outs, base, node):
        if ip.loopvars or not any(l[0] == "cell" and base.heap[l[1]].name == "X" for l in pre):
            return False
        seen.append(node)
        for l, nm in pre.items():
            if l[0] == "cell":
                c.hooks[nm] = lambda ev, a, nm=nm: Fraction(random.Random(repr((ev.seed, nm, a))).randint(0, 5), 2)
        c.equal("every row is visited: from the first", lo, ZERO)
        c.equal("every row is visited: to the last", hi, users)
        st0 = ip.st
        x0, g0 = (lambda a, f: hav.heap[X.cell].at((a, f))), (lambda a, f: hav.heap[G.cell].at((a, f)))
        y0 = lambda a, f: app("Y", a, f)
        m0 = hav.heap[rng.id]["n"]
        draw = lambda k: app("bpr_draw", add(m0, k), sort="I")
        u = i
        lo_, hi_ = P(u), P(add(u, ONE))
        cnt = mul(sub(hi_, lo_), neg_)

        def gradient(cap, f):
            dot = lambda j: ssum(0, n, lambda g: mul(x0(u, g), y0(j, g)))
            k = tm.fresh("k")
            s = tm.fresh("s")
            a = mk_sum(k, lo_, hi_, mul(Da(k), y0(Ix(k), f)))
            b = mk_sum(k, lo_, hi_, mul(mul(sigmoid(dot(Ix(k))), Da(k)), y0(Ix(k), f)))
            d = mk_sum(s, ZERO, min_(cap, cnt), mul(sigmoid(dot(Ix(draw(s)))), y0(Ix(draw(s)), f)))
            return sub(sub(sub(a, b), d), mul(reg, x0(u, f)))
        for o in outs:
            ip.st = o.st.copy()
            if o.sig is not None:
                c.fail("a row never stops the training", str(o.sig))
                continue
            x1, g1 = (lambda a, f: o.st.heap[X.cell].at((a, f))), (lambda a, f: o.st.heap[G.cell].at((a, f)))
            a, f = c.index(users, n)
            for l in ip.locations(hav, o.st):
                ok = l[0] == "var" or (l[0] == "cell" and l[1] in (X.cell, G.cell)) or (l[0] == "key" and l[1] == rng.id) or l[1] not in base.heap or base.heap[l[1]].name not in ("Y", "indptr_C", "indices_C", "data_C")
                c.check("a row changes nothing but its factors and their squared gradients", ok, str(l))
            st1 = ip.st.copy()
            c.assume(ne(a, u))
            c.equal("other rows stay", x1(a, f), x0(a, f))
            c.equal("squared gradients of other rows stay", g1(a, f), g0(a, f))
            ip.st = st1.copy()
            c.assume(eq(lo_, hi_))
            if not c.dead():
                c.equal("a row without interactions stays", x1(u, f), x0(u, f))
                c.equal("its squared gradient stays", g1(u, f), g0(u, f))
            ip.st = st1.copy()
            c.assume(lt(lo_, hi_))
            if not c.dead():
                # known finding (KNOWN_FINDINGS.txt): the number of negatives is capped at the number of factors
                caps = [items, n]
                g = gradient(items, f)
                old = pv.DEADLINE[0]
                pv.DEADLINE[0] = time.time() + 20
                fixed = bool(pv.prove_eq(ip.hyps(), g1(u, f), add(g0(u, f), mul(g, g))))
                pv.DEADLINE[0] = old
                if not fixed:
                    g = gradient(n, f)
                c.equal("the squared gradient is accumulated", g1(u, f), add(g0(u, f), mul(g, g)))
                c.equal("the row moves along the scaled gradient", x1(u, f), add(x0(u, f), mul(div(lr, app("sqrt", add(div(ONE, num(10 ** 6)), add(g0(u, f), mul(g, g))))), g)))
        ip.st = st0
        return True
    c.w.observer = observer
    for o in c.call(MOD + ":lmf_update", [rng, G, X, Y, rec["indices"], rec["indptr"], rec["data"], lr, reg, neg_, nt]):
        c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
    if not seen:
        raise Unsupported("no loop over rows")
