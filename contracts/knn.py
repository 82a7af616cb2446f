"""Contracts of the item-item search (implicit/_nearest_neighbours.pyx) (C11, C12, C20).  The C++ classes are used through their
contracts (headers.py): a multiplier holds a sum and a number of additions per index; foreach hands every index with an addition to
the TopK once and clears the multiplier; the TopK then keeps the best K."""
from contract import *  # noqa
from als_kernels import ssum
from headers import kept
import lib_cpp as X

MOD = "implicit._nearest_neighbours"
CPP = "implicit.cpp"


class Multiplier:
    """installs the contracts of SparseMatrixMultiplier; calls: what each foreach was given"""
    def __init__(self, c):
        self.c, self.calls, self.objs = c, [], []
        self.shared, self.region = set(), None      # objects that other threads can reach; the locked region that uses them
        s = c.w.summaries
        s["class:SparseMatrixMultiplier"] = self.new
        s[CPP + ":SparseMatrixMultiplier.add"] = self.add
        s[CPP + ":SparseMatrixMultiplier.foreach"] = self.foreach

    def new(self, ip, cls, a, kw):
        n = lift(a[0])
        o = ip.alloc({"sums": ip.array((n,), lambda x: ZERO, "R", "sums", cls="memview"), "_cnt": ip.array((n,), lambda x: ZERO, "I", "additions", cls="memview"), "_n": n}, "obj", cls)
        self.objs.append(o)
        return o

    def guard(self, ip, o):
        if o.id not in self.shared:
            return
        if self.region is None:
            self.region = getattr(ip, "region", None)
        ok = getattr(ip, "held", 0) > 0 and ip.region == self.region
        self.c.check("the multiplier of the scorer is used by one thread at a time: within one locked region", ok, ip.where())

    def add(self, ip, f, a, kw):
        self.guard(ip, f.self_)
        rec = ip.st.heap[f.self_.id]
        i, v = lift(a[0]), lift(a[1])
        ip.oblige("%s adds to an index that exists" % ip.where(), and_(le(ZERO, i), lt(i, rec["_n"])), "bounds")
        for k, d in (("sums", v), ("_cnt", ONE)):
            c = ip.st.heap[rec[k].cell]
            ip.store(rec[k].cell, (i,), tm.add(c.at((i,)), d))

    def foreach(self, ip, f, a, kw):
        self.guard(ip, f.self_)
        rec, tk = ip.st.heap[f.self_.id], ip.st.heap[a[0].id]
        h = tk["results"]
        g = eq(lift(ip.st.heap[h.id]["_size"]), ZERO)
        if not pv.prove(ip.hyps(), g):
            raise Unsupported("a search that may not start empty")
        ip.oblige("%s the TopK is empty before the search" % ip.where(), g)
        lv = list(ip.loopvars)
        nm = ip.nm("found")  # seen(x) stands for additions(x) > 0 and total(x) for sum(x), both at this point
        F = lambda what, x, sort="R": app(nm + what, *lv, x, sort=sort)
        su, cn = ip.st.heap[rec["sums"].cell], ip.st.heap[rec["_cnt"].cell]
        X.set_cells(ip, h, lambda x: F("_has", x, "I"), lambda x: F("_score", x))
        size, m = app(nm + "_size", *lv, sort="I"), app(nm + "_count", *lv, sort="I")
        X.upd(ip, h, _size=size, _state="heap")
        ip.assume(le(ZERO, m))
        seen = lambda x: and_(le(ZERO, x), lt(x, rec["_n"]), eq(F("_seen", x, "I"), ONE))
        facts = kept(ip, h, lift(tk["K"]), seen, m, lambda x: F("_total", x))
        for _, g in facts:
            ip.assume(g)
        self.calls.append({"has": lambda x: eq(F("_has", x, "I"), ONE), "seen": seen, "total": lambda x: F("_total", x), "size": size, "n": rec["_n"], "h": h,
                           "sum": lambda x: su.at((x,)), "additions": lambda x: cn.at((x,))})
        for k in ("sums", "_cnt"):
            c = ip.st.heap[rec[k].cell]
            ip.st.heap[rec[k].cell] = c.with_body(c.vars, ZERO)

    def clean(self, ip, o):
        rec = ip.st.heap[o.id]
        su, cn = ip.st.heap[rec["sums"].cell], ip.st.heap[rec["_cnt"].cell]
        x = tm.fresh("x")
        return [("the multiplier is clean", forall([x], and_(eq(su.at((x,)), ZERO), eq(cn.at((x,)), ZERO))))]


@contract(["C11", "C20"], "all_pairs_knn", [MOD + ":all_pairs_knn"])
def all_pairs(c):
    users, n, K = c.dim("users"), c.dim("items", 1), c.integer("K", 1)
    A = c.csr("A", users, n, dtype="float64", values=lambda r: Fraction(r.randint(-2, 4)))
    mu = Multiplier(c)
    At = lib_np.sparse_tocsr(c.ip, [lib_np.sparse_transpose(c.ip, A)], {})
    rec, rt = c.ip.st.heap[A.id], c.ip.st.heap[At.id]
    P, Ix, Da = (c.ip.elem(rec[k]) for k in ("indptr", "indices", "data"))
    TP, TI, TD = (c.ip.elem(rt[k]) for k in ("indptr", "indices", "data"))
    seen = []

    def invariant(ip, node, base, locs, i, lo, hi):
        if ip.loopvars or not mu.objs:
            return None
        return lambda ip, j: mu.clean(ip, mu.objs[-1])

    def observer(ip, i, lo, hi, pre, hav, outs, base, node):
        if ip.loopvars or not mu.calls:
            return False
        seen.append(node)
        c.equal("every item is searched: from the first", lo, ZERO)
        c.equal("every item is searched: to the last", hi, n)
        st0 = ip.st
        out = [(k, r) for k, r in base.heap.items() if isinstance(r, I.Cell) and ("cell", k) in pre and r.shape[0] is mul(n, K)]
        private = {x for o in mu.objs for x in (o.id, base.heap[o.id]["sums"].cell, base.heap[o.id]["_cnt"].cell) if o.id in base.heap}
        call = mu.calls[-1]
        h = call["h"]
        private |= {h.id, base.heap[h.id]["_has"].cell, base.heap[h.id]["_score"].cell}
        for o in outs:
            ip.st = o.st.copy()
            if o.sig is not None:
                c.fail("an item never ends the search", str(o.sig))
                continue
            for l in ip.locations(hav, o.st):
                ok = l[0] == "var" or l[1] not in base.heap or l[1] in private or l[1] in [k for k, _ in out]
                c.check("an item's search writes its results and the memory of its thread only", ok, str(l))
            size = call["size"]
            p, x = c.index(mul(n, K)), c.index(n)
            st1 = ip.st.copy()
            c.assume(or_(lt(p, mul(K, i)), le(mul(K, add(i, ONE)), p)))
            for k, cell in out:
                c.equal("results of other items stay", o.st.heap[k].at((p,)), hav.heap[k].at((p,)))
            ip.st = st1
            t = tm.fresh("t")
            # what the product is
            sim = lambda j: ssum2(TP(i), TP(add(i, ONE)), lambda k: ssum2(P(TI(k)), P(add(TI(k), ONE)), lambda l: ite(eq(Ix(l), j), mul(TD(k), Da(l)), ZERO)))
            cnt = lambda j: ssum2(TP(i), TP(add(i, ONE)), lambda k: ssum2(P(TI(k)), P(add(TI(k), ONE)), lambda l: ite(eq(Ix(l), j), ONE, ZERO)))
            # the value each candidate was searched with
            for m in mu.objs:
                r0 = hav.heap[m.id]
                c.assume(and_(eq(hav.heap[r0["sums"].cell].at((x,)), ZERO), eq(hav.heap[r0["_cnt"].cell].at((x,)), ZERO)))
            c.equal("a candidate's value is the product of the two items", call["sum"](x), sim(x))
            c.equal("the candidates are the items rated together", call["additions"](x), cnt(x))
            c.require("min(K, candidates) results", and_(le(size, K), le(ZERO, size)))
            q = c.index(size)
            ids = [k for k, cell in out if cell.dt == "I"]
            vals = [k for k, cell in out if cell.dt == "R"]
            if len(ids) != 2 or len(vals) != 1:
                raise Unsupported("arrays of the results")
            at = lambda k: o.st.heap[k].at((add(mul(K, i), q),))
            a, b = at(ids[0]), at(ids[1])
            st1 = ip.st.copy()
            rows, cols = (ids[0], ids[1]) if pv.prove(ip.hyps(), eq(a, i)) else (ids[1], ids[0])
            mu.rc = (rows, cols, vals[0])
            c.equal("the row of a result is the item", at(rows), i)
            j = at(cols)
            c.require("a result is a candidate", call["seen"](j))
            c.equal("its value is the candidate's", at(vals[0]), call["total"](j))
            q2 = c.index(size)
            st2 = ip.st.copy()
            c.assume(ne(q, q2))
            c.require("no candidate appears twice", ne(o.st.heap[cols].at((add(mul(K, i), q2),)), j))
            ip.st = st2
            y = c.index(n)
            c.assume(call["seen"](y))
            c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, size)), ne(o.st.heap[cols].at((add(mul(K, i), t),)), y))))
            c.require("no candidate left out has a larger value", le(call["total"](y), at(vals[0])))
            c.require("a candidate is left out only when K others are kept", eq(size, K))
        ip.st = st0
        return True
    c.w.invariant, c.w.observer = invariant, observer
    for o in c.call(MOD + ":all_pairs_knn", [A, K, c.integer("threads"), c.boolean("progress")]):
        v = c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        rv = c.ip.st.heap[v.id]
        c.check("the result is a COO matrix", v.cls.name.startswith("coo"))
        for d in (0, 1):
            c.equal("items x items", rv["_shape"][d], n)
        if not hasattr(mu, "rc"):
            raise Unsupported("no results")
        for k, cell in zip(("row", "col", "data"), mu.rc):
            c.check("the result holds the %s found" % k, rv[k].cell == cell)
    if not seen:
        raise Unsupported("no loop over items")


def ssum2(lo, hi, f):
    k = tm.fresh("k")
    return mk_sum(k, lo, hi, f(k))


def scorer_post(c, call, liked, n, K, out, sim):
    """what recommend promises of (ids, scores), out = (size, id at position, score at position)"""
    size, at, sc = out
    x = c.index(n)
    c.equal("a candidate's value is the sum over the user's items", call["sum"](x), sim(x)[0])
    c.equal("the candidates are the neighbours of the user's items", call["additions"](x), sim(x)[1])
    c.equal("as many results as candidates kept", size, call["size"])
    c.require("at most K results", and_(le(ZERO, size), le(size, K)))
    p, q = c.index(size, size)
    c.assume(lt(p, q))
    j = at(p)
    c.require("a result is a candidate", call["seen"](j))
    c.equal("its score is the candidate's value", sc(p), call["total"](j))
    c.require("no candidate appears twice", ne(at(q), j))
    c.require("scores do not increase", le(sc(q), sc(p)))
    st = c.ip.st.copy()
    y, t = c.index(n), tm.fresh("t")
    c.assume(call["seen"](y))
    c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, size)), ne(at(t), y))))
    c.require("no candidate left out has a larger value", le(call["total"](y), sc(p)))
    c.require("a candidate is left out only when K others are kept", eq(size, K))
    c.ip.st = st


def scorer(remove, dt):
    @contract(["C12", "C20"], "NearestNeighboursScorer.recommend (%s%s)" % ("own likes removed, " if remove else "", dt), [MOD + ":NearestNeighboursScorer.recommend", MOD + ":NearestNeighboursScorer.__cinit__"])
    def run(c):
        n, cols, K = c.dim("items", 1), c.dim("cols"), c.integer("K", 1)
        c.given(le(cols, n))
        S = c.csr("S", n, n, dtype="float64", values=lambda r: Fraction(r.randint(-2, 4)))
        U = c.csr("U", ONE, cols, dtype=dt, values=lambda r: Fraction(r.randint(-2, 4)))
        mu = Multiplier(c)
        rec, rs = c.ip.st.heap[U.id], c.ip.st.heap[S.id]
        UP, UI, UD = (c.ip.elem(rec[k]) for k in ("indptr", "indices", "data"))
        SP, SI, SD = (c.ip.elem(rs[k]) for k in ("indptr", "indices", "data"))
        made = [o for o in c.call(MOD + ":NearestNeighboursScorer", [S])]
        if len(made) != 1 or made[0].sig == "raise":
            raise Unsupported("construction of the scorer")
        s = c.at(made[0])
        for nm, g in mu.clean(c.ip, mu.objs[-1]):
            c.require("a new scorer: " + nm, g)
        mu.shared = {o.id for o in mu.objs}
        for o in c.method(s, "recommend", [rec["indptr"], rec["indices"], rec["data"]], {"K": K, "remove_own_likes": remove}):
            v = c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            if len(mu.calls) != 1:
                raise Unsupported("searches")
            ids, sc = v
            x = tm.fresh("x")
            own = lambda x: exists([t], and_(le(UP(ZERO), t), lt(t, UP(ONE)), eq(UI(t), x)))
            t = tm.fresh("t")

            def sim(x):
                f = lambda g: ssum2(UP(ZERO), UP(ONE), lambda k: ssum2(SP(UI(k)), SP(add(UI(k), ONE)), lambda l: ite(eq(SI(l), x), g(k, l), ZERO)))
                a, b = f(lambda k, l: mul(SD(l), UD(k))), f(lambda k, l: ONE)
                return (ite(own(x), ZERO, a) if remove else a), b
            c.equal("as many scores as ids", lift(ids.shape[0]), lift(sc.shape[0]))
            scorer_post(c, mu.calls[0], own, n, K, (lift(ids.shape[0]), lambda p: c.elem(ids, p), lambda p: c.elem(sc, p)), sim)
            for nm, g in mu.clean(c.ip, mu.objs[-1]):
                c.require("after a call: " + nm, g)
            k, l = c.index(var("nnz_U"), var("nnz_S"))
            for m, a, nmx in ((U, k, "U"), (S, l, "S")):
                r = c.ip.st.heap[m.id]
                c.equal("the data of %s is unchanged" % nmx, c.elem(r["data"], a), app("data_" + nmx, a))
                c.equal("the indices of %s are unchanged" % nmx, c.elem(r["indices"], a), app("indices_" + nmx, a, sort="I"))


for remove in (True, False):
    for dt in ("float32", "float64"):
        scorer(remove, dt)
