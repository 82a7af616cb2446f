"""Contracts of the top-k search (implicit/cpu/topk.pyx) (C01, C02, C03, C04, C20).

select (select.h) is used through its contract: for each row of the batch it writes k distinct column numbers whose scores
are in non-increasing order and not smaller than the score of any column left out, together with these scores."""
from contract import *  # noqa
from als_kernels import ssum
from lib_c import Ptr
from lib_np import arr_setitem  # noqa

MOD = "implicit.cpu.topk"


def best(t, lv):
    """evaluation of a selection: the positions in the order of their scores"""
    def order(ev, ix):
        env = {"topk_%d" % n: x for n, x in enumerate(ix)}
        vs = [var("topk_%d" % n) for n in range(len(ix))]
        m = dict(zip(lv, vs))
        n = int(ev.ev(subst(t.n, m), env, {}))
        if n > 50:
            raise pv.Undef("size")
        j = var("topk_j")
        sc = subst(t.score(*vs, j), m)
        got = [(-ev.ev(sc, {**env, "topk_j": x}, {}), x) for x in range(n)]
        return [x for _, x in sorted(got)]

    def ident(ev, a):
        o = order(ev, a[:-1])
        if not 0 <= a[-1] < len(o):
            raise pv.Undef("rank")
        return o[int(a[-1])]

    def pos(ev, a):
        o = order(ev, a[:-1])
        if a[-1] not in o:
            raise pv.Undef("position")
        return o.index(a[-1])
    return ident, pos


class TopK:
    """the contract of a selection: ids(*ix, i), i < k, of the candidates j < n with score(*ix, j)"""
    def __init__(self, name, n, k, score):
        self.name, self.n, self.k, self.score = name, lift(n), lift(k), score

    def id(self, *ix):
        return app(self.name, *ix, sort="I")

    def axioms(self, c, ix, i=None, i2=None, j=None):
        """instances of the contract at given terms"""
        rng = lambda x: and_(le(ZERO, x), lt(x, self.k))
        for x in (i, i2):
            if x is not None:
                c.assume(implies(rng(x), and_(le(ZERO, self.id(*ix, x)), lt(self.id(*ix, x), self.n))))
        if i is not None and i2 is not None:
            c.assume(implies(and_(rng(i), rng(i2), lt(i, i2)), and_(ne(self.id(*ix, i), self.id(*ix, i2)), le(self.score(*ix, self.id(*ix, i2)), self.score(*ix, self.id(*ix, i))))))
        if j is not None:
            pos = app(self.name + "_pos", *ix, j, sort="I")
            inside = and_(rng(pos), eq(self.id(*ix, pos), j))
            for x in (i, i2):
                if x is not None:
                    c.assume(implies(and_(le(ZERO, j), lt(j, self.n), rng(x)), or_(inside, le(self.score(*ix, j), self.score(*ix, self.id(*ix, x))))))
            return inside


def select(c, calls):
    def run(ip, a, kw):
        batch, rows, cols, k, ids, dist = a
        rows, cols, k = lift(rows), lift(cols), lift(k)
        if not all(isinstance(p, Ptr) for p in (batch, ids, dist)):
            raise Unsupported("arguments of select")
        cb, ci, cd = (ip.st.heap[p.cell] for p in (batch, ids, dist))
        if any(len(x.shape) != 2 for x in (cb, ci, cd)):
            raise Unsupported("select on one-dimensional buffers")
        w = ip.where() + " select: "
        some = and_(lt(ZERO, rows), lt(ZERO, cols), lt(ZERO, k))
        ip.oblige(w + "the batch has rows x columns scores", implies(some, and_(le(ZERO, batch.pos[0]), le(add(batch.pos[0], rows), cb.shape[0]), eq(batch.pos[1], ZERO), eq(cols, cb.shape[1]))), "bounds")
        ip.oblige(w + "no more results than columns", le(k, cols), "contract")
        for p, cell in ((ids, ci), (dist, cd)):
            ip.oblige(w + "%s rows of %s stay inside" % (show(rows)[:40], cell.name or "the results"), implies(some, and_(le(ZERO, p.pos[0]), le(add(p.pos[0], rows), cell.shape[0]), eq(p.pos[1], ZERO), eq(k, cell.shape[1]))), "bounds")
        lv = list(ip.loopvars)
        site = "select%d" % len(lv)
        b0 = batch.pos[0]
        t = TopK(site, cols, k, None)
        calls[site] = t
        t.score = lambda *x: cb.at((add(b0, x[-2]), x[-1]))
        t.lv = lv
        c.hooks[site], c.hooks[site + "_pos"] = best(t, lv)
        for p, cell, val in ((ids, ci, lambda r, i: t.id(*lv, r, i)), (dist, cd, lambda r, i: cb.at((add(b0, r), t.id(*lv, r, i))))):
            v = cell.vars
            r = sub(v[0], p.pos[0])
            cur = ip.st.heap[p.cell]
            ip.st.heap[p.cell] = cur.with_body(v, ite(and_(le(ZERO, r), lt(r, rows), le(ZERO, v[1]), lt(v[1], k)), val(r, v[1]), cur.body))
        return None
    return run


FMAX = var("FMAX", "R")


def row_has(ip, C_):
    """membership of a column in a row of a CSR matrix, as a function to a formula"""
    rec = ip.st.heap[C_.id]
    if "_has" in rec:
        return rec["_has"]
    P, Ix = ip.elem(rec["indptr"]), ip.elem(rec["indices"])

    def has(r, j):
        t = tm.fresh("t")
        return exists([t], and_(le(P(r), t), lt(t, P(add(r, ONE))), eq(Ix(t), j)))
    return has


class Topk:
    """topk used through its contract; records what it was asked"""
    def __init__(self, c):
        self.c, self.calls = c, []

    def call_of(self, a):
        """the search (of those on all paths) that an id comes from"""
        for call in self.calls:
            ids = [s for s in subterms(a) if s.op == "app" and s.args[0] == call.name]
            if ids:
                return call, ids
        raise Unsupported("the ids do not come from topk")

    def __call__(self, ip, f, a, kw):
        v = dict(zip(["items", "query", "k", "item_norms", "filter_query_items", "filter_items", "num_threads"], a))
        v.update(kw)
        Y, Q, k = v["items"], v["query"], lift(v["k"])
        if not isinstance(Y, Arr) or not isinstance(Q, Arr) or Y.ndim != 2 or Q.ndim not in (1, 2):
            raise Unsupported("arguments of topk")
        n, rows = lift(Y.shape[0]), ONE if Q.ndim == 1 else lift(Q.shape[0])
        w = "precondition of topk: "
        ip.oblige(w + "as many factors in the query as in the items", eq(lift(Y.shape[1]), lift(Q.shape[-1])))
        ip.oblige(w + "there are items and k is positive", and_(lt(ZERO, n), lt(ZERO, k)))
        ey, eq_ = ip.elem(Y), ip.elem(Q)
        fl, fq, nr = v.get("filter_items"), v.get("filter_query_items"), v.get("item_norms")
        tests = []
        if fq is not None:
            if not ip.w.is_sparse(fq) or not fq.cls.name.startswith("csr"):
                raise Unsupported("filter_query_items")
            ip.oblige(w + "one row of the filter per query", le(rows, lift(ip.st.heap[fq.id]["_shape"][0])))
            has = row_has(ip, fq)
            rr, j = ip.new("fr"), ip.new("fj")
            lim = ip.st.heap[fq.id].get("_limit")
            if lim is None:
                t = tm.fresh("t")
                e = ip.elem(ip.st.heap[fq.id]["indices"])
                ok = forall([t], implies(and_(le(ZERO, t), lt(t, ip.st.heap[fq.id]["_nnz"])), lt(e(t), n)))
                if ip.truth(ok) is not True:
                    # numpy rejects a column that does not exist
                    if ip.choose(2) == 1:
                        ip.path(not_(ok))
                        raise PyRaise("IndexError")
                    ip.path(ok)
            else:
                ip.oblige(w + "every filtered column exists", le(lim, n))
            tests.append(has)
        if fl is not None:
            if isinstance(fl, H) or isinstance(fl, tuple):
                fl = lib_np.np_array(ip, [fl], {})
            ef, m = ip.elem(fl), lift(fl.shape[0])
            t = tm.fresh("t")
            bad = exists([t], and_(le(ZERO, t), lt(t, m), le(n, ef(t))))
            if ip.truth(not_(bad)) is not True:
                if ip.choose(2) == 1:
                    ip.path(bad)
                    raise PyRaise("IndexError")
                ip.path(not_(bad))

            def listed(r, j):
                t = tm.fresh("t")
                return exists([t], and_(le(ZERO, t), lt(t, m), eq(ef(t), j)))
            tests.append(listed)
        if nr is not None:
            ip.oblige(w + "one norm per item", eq(lift(nr.shape[0]), n))
            en = ip.elem(nr)
            jn = ip.new("jn")
            ip.oblige(w + "norms are positive", implies(and_(le(ZERO, jn), lt(jn, n)), lt(ZERO, en(jn))))

        def score(r, j):
            s = ssum(0, lift(Y.shape[1]), lambda g: mul(eq_(g) if Q.ndim == 1 else eq_(r, g), ey(j, g)))
            if nr is not None:
                s = div(s, en(j))
            return ite(or_(*[g(r, j) for g in tests]), neg(FMAX), s) if tests else s
        kk = min_(k, n) if ip.truth(le(k, n)) is not True else k
        if ip.truth(le(n, k)) is True:
            kk = n
        name = "topk_ids%d" % len(self.calls)
        t = TopK(name, n, kk, score)
        t.lv = []
        self.calls.append(t)
        self.c.hooks[name], self.c.hooks[name + "_pos"] = best(t, [])
        r, i = tm.fresh("r"), tm.fresh("i")
        ip.assume(forall([r, i], implies(and_(le(ZERO, r), lt(r, rows), le(ZERO, i), lt(i, kk)), and_(le(ZERO, t.id(r, i)), lt(t.id(r, i), n)))))
        ids = ip.array((rows, kk), lambda r, i: t.id(r, i), "I", "topk ids")
        sc = ip.array((rows, kk), lambda r, i: score(r, t.id(r, i)), "R", "topk scores")
        return (ids, sc)


def topk_contract(one_dim, norms, fq, fi):
    label = "topk (%s query%s%s%s)" % ("1-d" if one_dim else "2-d", ", norms" if norms else "", ", per-row filter" if fq else "", ", filter list" if fi else "")

    @contract(["C01", "C02", "C03", "C04", "C20"], label, [MOD + ":topk", MOD + ":_topk_batch"])
    def run(c):
        calls = {}
        c.w.models[MOD + ":select"] = select(c, calls)
        items, n, q = c.dim("items", 1), c.dim("factors", 1), c.dim("queries", g=lambda r: r.choice([0, 1, 2, 3, 100, 101, 102, 200]))
        Y = c.array("Y", (items, n), dtype="float32")
        Q = c.array("Q", (n,) if one_dim else (q, n), dtype="float32")
        k = c.integer("k", 1)
        kw = {}
        rows = ONE if one_dim else q
        if norms:
            kw["item_norms"] = c.array("norms", (items,), dtype="float32", g=lambda r, k, ix: Fraction(r.randint(1, 5)))
            j = tm.fresh("j")
            c.given(forall([j], implies(and_(le(ZERO, j), lt(j, items)), lt(ZERO, app("norms", j)))))
        if fq:
            # ids in the filter exist; the number of columns of the matrix is not used
            cols = c.integer("cols", 0, g=lambda r, k: k["items"])
            kw["filter_query_items"] = c.csr("F", rows, cols)
            t = tm.fresh("t")
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, var("nnz_F"))), lt(app("indices_F", t, sort="I"), items))))
        if fi:
            cnt = c.dim("nf")
            kw["filter_items"] = c.array("fl", (cnt,), "I", g=lambda r, k, ix: r.randint(0, max(k["items"] - (r.random() < .9), 0)))
            t = tm.fresh("t")
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, cnt)), le(ZERO, app("fl", t, sort="I")))))
        c.gens.append(lambda r, k, f: k.__setitem__("FMAX", Fraction(10 ** 7)))
        kw["num_threads"] = c.integer("threads")

        def score(r, j):
            s = ssum(0, n, lambda f: mul(app("Q", f) if one_dim else app("Q", r, f), app("Y", j, f)))
            if norms:
                s = div(s, app("norms", j))
            out = []
            t = tm.fresh("t")
            if fq:
                P, Ix = (lambda x: app("indptr_F", x, sort="I")), (lambda x: app("indices_F", x, sort="I"))
                out.append(exists([t], and_(le(P(r), t), lt(t, P(add(r, ONE))), eq(Ix(t), j))))
            if fi:
                out.append(exists([t], and_(le(ZERO, t), lt(t, cnt), eq(app("fl", t, sort="I"), j))))
            return ite(or_(*out), neg(FMAX), s) if out else s
        for o in c.call(MOD + ":topk", [Y, Q, k], kw):
            v = c.at(o)
            t = tm.fresh("t")
            bad = []
            if fi:
                bad.append(exists([t], and_(le(ZERO, t), lt(t, cnt), le(items, app("fl", t, sort="I")))))
            if o.sig == "raise":
                c.check("raises only IndexError", o.val.typ == "IndexError", o.val.typ)
                c.require("raises only for a filtered id that does not exist", or_(*bad))
                continue
            if bad:
                c.require("a filtered id that does not exist is rejected", implies(lt(ZERO, rows), not_(or_(*bad))))
            ids, dist = v
            kk = min_(k, items)
            c.equal("one row of ids per query", lift(ids.shape[0]), rows)
            c.equal("min(k, items) ids", lift(ids.shape[1]), kk)
            c.equal("one row of scores per query", lift(dist.shape[0]), rows)
            c.equal("min(k, items) scores", lift(dist.shape[1]), kk)
            r, i = c.index(rows, kk)
            i2 = c.index(kk)
            j = c.index(items)
            c.assume(lt(i, i2))
            a, b = c.elem(ids, r, i), c.elem(ids, r, i2)
            # the instances of select's contract for this row
            found = [s for s in subterms(a) if s.op == "app" and s.args[0] in calls]
            inside = []
            for s in found:
                t = calls[s.args[0]]
                ix = s.args[1:-1]
                sub_ = dict(zip(t.lv, ix[:len(t.lv)]))
                t2 = TopK(t.name, subst(t.n, sub_), subst(t.k, sub_), lambda *x, t=t: None)
                # the batch the selection was made from is the one of this row
                t2.score = lambda *x, t=t, sub_=sub_: c.solver_term(subst(t.score(*x), sub_)) if hasattr(c, "solver_term") else subst(t.score(*x), sub_)
                ins = t2.axioms(c, ix, i, i2, j)
                inside.append((s, t2, ix, ins))
            if not found:
                raise Unsupported("the ids do not come from a selection")
            c.require("an id is an item", and_(le(ZERO, a), lt(a, items)))
            c.equal("a score is the score of its item", c.elem(dist, r, i), score(r, a))
            c.require("ids are distinct", ne(a, b))
            c.require("scores do not increase", le(c.elem(dist, r, i2), c.elem(dist, r, i)))
            left = and_(*[not_(ins) for _, _, _, ins in inside])
            c.require("no item left out scores higher", implies(left, le(score(r, j), c.elem(dist, r, i))))
            for arr, nm in ((Y, "Y"), (Q, "Q")):
                ix = [c.index(lift(x)) for x in arr.shape]
                c.equal("%s is unchanged" % nm, c.elem(arr, *ix), app(nm, *ix))


for one_dim in (True, False):
    for norms, fq, fi in ((False, False, False), (False, True, False), (False, False, True), (False, True, True), (True, False, False), (True, False, True)):
        topk_contract(one_dim, norms, fq, fi)
