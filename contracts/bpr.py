"""Contracts of BPR training (implicit/cpu/bpr.pyx) (C16, C20).  The update loop is stated for its generic iteration (the loop body's
contract, for any values of the factors before it): with one thread the loop is the sequence of these steps."""
from contract import *  # noqa
from als_kernels import ssum
from lib_c import Ptr

MOD = "implicit.cpu.bpr"


def generate(c, hi):
    """RNGVector.generate: a number from 0 to the upper bound the generators were created with (inclusive)"""
    def run(ip, f, a, kw):
        o = f.self_ if f.self_ is not None else a[0]
        rec = ip.st.heap[o.id]
        ip.st.heap[o.id] = {**rec, "n": add(rec["n"], ONE)}
        tid = a[-1] if a else kw["thread_id"]
        ip.oblige("%s draws from the generator of its own thread" % ip.where(), eq(lift(tid), var("thread")))
        t = app("bpr_draw", rec["n"], sort="I")
        ip.assume(implies(le(ZERO, hi), and_(le(ZERO, t), le(t, hi))))
        return t
    return run


def binary_search(ip, a, kw):
    p, q, x = a
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.cell == q.cell and len(p.pos) == 1):
        raise Unsupported("binary_search")
    cell = ip.st.heap[p.cell]
    lo, hi = p.pos[0], q.pos[0]
    i, j = tm.fresh("i"), tm.fresh("j")
    w = ip.where() + " binary_search: "
    ip.oblige(w + "the range lies inside the array", implies(lt(lo, hi), and_(le(ZERO, lo), le(hi, cell.shape[0]))), "bounds")
    ip.oblige(w + "the range is sorted", forall([i, j], implies(and_(le(lo, i), lt(i, j), lt(j, hi)), le(cell.at((i,)), cell.at((j,))))))
    return exists([i], and_(le(lo, i), lt(i, hi), eq(cell.at((i,)), lift(x))))


def update(verify):
    @contract(["C16", "C20"], "bpr_update (%s)" % ("negatives verified" if verify else "no verification"), [MOD + ":bpr_update", MOD + ":has_non_zero"])
    def run(c):
        users, items, n, nnz = c.dim("users", 1, 3), c.dim("items", 1, 3), c.dim("factors", 1, 2), c.dim("nnz", 0, 5, g=lambda r: r.randint(1, 5))
        X = c.array("X", (users, add(n, ONE)), dtype="float32")
        Y = c.array("Y", (items, add(n, ONE)), dtype="float32")
        uid = c.array("userids", (nnz,), "I", g=lambda r, k, ix: r.randint(0, k["users"] - 1))
        iid = c.array("itemids", (nnz,), "I", g=lambda r, k, ix: r.randint(0, k["items"] - 1))
        ptr = c.array("indptr", (add(users, ONE),), "I", g=lambda r, k, ix: min(ix[0], k["nnz"]) if ix[0] < k["users"] else k["nnz"])
        U, It, P = (lambda x: app("userids", x, sort="I")), (lambda x: app("itemids", x, sort="I")), (lambda x: app("indptr", x, sort="I"))
        t, s, r = tm.fresh("t"), tm.fresh("s"), tm.fresh("r")
        inn = and_(le(ZERO, t), lt(t, nnz))
        c.given(forall([t], implies(inn, and_(le(ZERO, U(t)), lt(U(t), users), le(ZERO, It(t)), lt(It(t), items)))))
        c.given(forall([r], implies(and_(le(ZERO, r), le(r, users)), and_(le(ZERO, P(r)), le(P(r), nnz)))))
        c.given(forall([r], implies(and_(le(ZERO, r), lt(r, users)), le(P(r), P(add(r, ONE))))))
        c.given(forall([r, s, t], implies(and_(le(ZERO, r), lt(r, users), le(P(r), s), lt(s, t), lt(t, P(add(r, ONE)))), lt(It(s), It(t)))))
        lr, reg, nt = c.real("lr"), c.real("reg"), c.integer("threads", 1)
        c.integer("thread", 0, g=lambda r, k: 0)
        c.w.models["cdef:get_thread_num"] = lambda ip, a, kw: var("thread")
        c.w.models[MOD + ":get_thread_num"] = lambda ip, a, kw: var("thread")
        c.w.models[MOD + ":binary_search"] = binary_search
        c.w.models["libcpp.algorithm.binary_search"] = binary_search
        c.w.summaries[MOD + ":RNGVector.generate"] = generate(c, sub(nnz, ONE))
        c.hooks["bpr_draw"] = lambda ev, a: random.Random(repr((ev.seed, a))).randint(0, max(0, ev.c["nnz"] - 1))
        rng = c.model(MOD, "RNGVector", n=c.integer("drawn", 0))
        seen = []

        def observer(ip, i, lo, hi, pre, hav, outs, base, node):
            if seen and seen[0] is not node or node is None or "schedule" not in repr(vars(node)) and not getattr(node, "parallel", False) and len(ip.loopvars) > 0:
                return False
            if any(l[0] == "cell" and base.heap[l[1]].name in ("X", "Y") for l in pre) is False:
                return False
            seen.append(node)
            # any values the factors may have when the iteration starts
            for l, nm in pre.items():
                if l[0] == "cell":
                    c.hooks[nm] = lambda ev, a, nm=nm: Fraction(random.Random(repr((ev.seed, nm, a))).randint(-4, 5), 2)
            st0 = ip.st
            x0, y0 = (lambda a, f: hav.heap[X.cell].at((a, f))), (lambda a, f: hav.heap[Y.cell].at((a, f)))
            m0 = hav.heap[rng.id]["n"]
            d0, d1 = app("bpr_draw", m0, sort="I"), app("bpr_draw", add(m0, ONE), sort="I")
            u, li, di = U(d0), It(d0), It(d1)
            for o in outs:
                ip.st = o.st.copy()
                if o.sig is not None:
                    c.fail("a step never stops the training", str(o.sig))
                    continue
                x1, y1 = (lambda a, f: o.st.heap[X.cell].at((a, f))), (lambda a, f: o.st.heap[Y.cell].at((a, f)))
                a, f = c.index(users, add(n, ONE))
                b = c.index(items)
                c.equal("a step takes two draws", ip.st.heap[rng.id]["n"], add(m0, num(2)))
                for l in ip.locations(hav, o.st):
                    ok = l[0] == "var" or (l[0] == "cell" and l[1] in (X.cell, Y.cell)) or (l[0] == "key" and l[1] == rng.id) or (l[0] != "var" and l[1] not in base.heap)
                    c.check("a step changes nothing but the factors", ok, str(l))
                z = div(ONE, add(ONE, app("exp", ssum(0, add(n, ONE), lambda g: mul(x0(u, g), sub(y0(li, g), y0(di, g)))))))
                t = tm.fresh("t")
                liked = exists([t], and_(le(P(u), t), lt(t, P(add(u, ONE))), eq(It(t), di)))
                skip = liked if verify else FALSE
                nx = ite(and_(eq(a, u), lt(f, n)), add(x0(a, f), mul(lr, sub(mul(z, sub(y0(li, f), y0(di, f))), mul(reg, x0(a, f))))), x0(a, f))
                xu = ite(lt(f, n), x0(u, f), ONE)
                up = lambda sg: add(y0(b, f), mul(lr, sub(mul(sg, mul(z, xu)), mul(reg, y0(b, f)))))
                ny = ite(eq(b, li), up(ONE), ite(eq(b, di), up(num(-1)), y0(b, f)))
                st1 = ip.st.copy()
                c.assume(skip)
                if not c.dead():
                    c.equal("a skipped step leaves the user factors", x1(a, f), x0(a, f))
                    c.equal("a skipped step leaves the item factors", y1(b, f), y0(b, f))
                ip.st = st1.copy()
                c.assume(not_(skip))
                c.assume(ne(li, di))
                if not c.dead():
                    c.equal("the user moves along the gradient", x1(a, f), nx)
                    for cs, nm in ((eq(b, li), "the liked item moves"), (eq(b, di), "the other item moves"), (and_(ne(b, li), ne(b, di)), "other items stay")):
                        st2 = ip.st.copy()
                        c.assume(cs)
                        c.equal(nm, y1(b, f), ny)
                        ip.st = st2
                ip.st = st1.copy()
                c.assume(not_(skip))
                c.assume(eq(li, di))
                if c.dead():
                    continue
                c.equal("other users stay when both items are the same", ite(eq(a, u), ZERO, x1(a, f)), ite(eq(a, u), ZERO, x0(a, f)))
                c.equal("other items stay when both items are the same", ite(eq(b, li), ZERO, y1(b, f)), ite(eq(b, li), ZERO, y0(b, f)))
                c.equal("the last user column stays when both items are the same", x1(a, n), x0(a, n))
            ip.st = st0
            return True
        c.w.observer = observer
        for o in c.call(MOD + ":bpr_update", [rng, uid, iid, ptr, X, Y, lr, reg, nt, verify]):
            c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
        if not seen:
            raise Unsupported("no loop over samples")


update(True)
update(False)
