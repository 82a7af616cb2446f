"""Contracts of the queries of item-item models (implicit/nearest_neighbours.py): recommend, similar_items (C12, C04, C20).
NearestNeighboursScorer is used through its contract (knn.py)."""
from contract import *  # noqa

FMAX = var("FMAX_float64", "R")
MOD = "implicit.nearest_neighbours"
CLS = MOD + ":ItemItemRecommender"
SCORER = I.ClsV("NearestNeighboursScorer", None, "stub")


class Scorer:
    """recommend(indptr, indices, data, K, remove_own_likes) by its contract; value(x), seen(x) are the sums of the user's row"""
    def __init__(self, c, n):
        self.c, self.n, self.calls = c, n, []
        c.w.attr_hooks.append(self)

    def getattr(self, ip, o, name):
        if isinstance(o, H) and o.kind == "obj" and o.cls == SCORER and name == "recommend":
            return I.Builtin("NearestNeighboursScorer.recommend", self.recommend, o)

    def recommend(self, ip, a, kw):
        names = ("user_indptr", "user_indices", "user_data", "K", "remove_own_likes")
        args = dict(zip(names, a[1:]))
        if set(args) & set(kw) or set(kw) - set(names):
            raise Unsupported("arguments of the scorer")
        args.update(kw)
        K = lift(args.get("K", 10))
        n = self.n
        P, Ix = args["user_indptr"], args["user_indices"]
        ep, ei = ip.elem(P), ip.elem(Ix)
        t = tm.fresh("t")
        ip.oblige("precondition of the scorer: a row of interactions", le(num(2), lift(P.shape[0])), "bounds")
        ip.oblige("precondition of the scorer: the items are in the model", forall([t], implies(and_(le(ep(ZERO), t), lt(t, ep(ONE))), and_(le(ZERO, ei(t)), lt(ei(t), n)))), "bounds")
        ip.oblige("precondition of the scorer: K is positive", le(ONE, K))
        k = ip.st.heap[a[0].id].get("_calls", 0)
        ip.st.heap[a[0].id] = {**ip.st.heap[a[0].id], "_calls": k + 1, "_last": len(self.calls)}
        nm = "scorer%d" % k
        S = lambda what, x, sort="I": app(nm + what, x, sort=sort)
        size = app(nm + "_size", sort="I")
        seen = lambda x: and_(le(ZERO, x), lt(x, n), eq(S("_seen", x), ONE))
        total = lambda x: S("_total", x, "R")
        ident, pos = (lambda p: S("_id", p)), (lambda x: S("_pos", x))
        p, q, y = tm.fresh("p"), tm.fresh("q"), tm.fresh("y")
        inn = lambda p: and_(le(ZERO, p), lt(p, size))
        ip.assume(and_(le(ZERO, size), le(size, K), le(size, n)))
        ip.assume(forall([p], implies(inn(p), and_(seen(ident(p)), eq(pos(ident(p)), p)))))
        ip.assume(forall([p, q], implies(and_(le(ZERO, p), le(p, q), lt(q, size)), le(total(ident(q)), total(ident(p))))))
        ip.assume(forall([y], implies(and_(seen(y), not_(and_(inn(pos(y)), eq(ident(pos(y)), y)))), eq(size, K))))
        ip.assume(forall([y, p], implies(and_(seen(y), inn(p), not_(and_(inn(pos(y)), eq(ident(pos(y)), y)))), le(total(y), total(ident(p))))))
        ip.assume(implies(le(n, K), forall([y], implies(seen(y), and_(inn(pos(y)), eq(ident(pos(y)), y))))))  # pigeonhole
        ip.assume(forall([y], lt(neg(FMAX), total(y))))
        self.calls.append({"args": args, "seen": seen, "total": total, "size": size, "K": K, "ident": ident, "pos": pos, "inn": inn})
        return (ip.array((size,), lambda i: ident(i), "I", "ids", meta={"dtype": "int32"}), ip.array((size,), lambda i: total(ident(i)), "R", "scores", meta={"dtype": "float64"}))


def places(c, ids, pos, y):
    """where in ids an entry can be, through the inverses of the masks and sorts that were applied: pos is its position in the array
    they start from, y (or None) that in the list of items"""
    q = var("place!")
    e = c.elem(ids, q)
    parts = [e.args[2], e.args[1]] if e.op == "ite" else [e]
    out = []
    for t in parts:
        ms = sorted({s for s in subterms(t) if s.op == "app" and s.args[0] in ("mpos", "sortperm") and q in s.fv}, key=lambda s: len(show(s.args[3])))
        k = y if any(s.op == "app" and s.args[0] == "items_" and q in s.fv for s in subterms(t)) else pos
        for s in reversed(ms):
            k = app("mrank" if s.args[0] == "mpos" else "sortperm_inv", s.args[1], s.args[2], k, sort="I")
        if ms:
            # the innermost argument is q or -q plus an offset
            a0, a1 = subst(ms[0].args[3], {q: ZERO}), subst(ms[0].args[3], {q: ONE})
            d = sub(a1, a0)
            if not (isnum(d, 1) or isnum(d, -1)):
                raise Unsupported("order of the results")
            k = sub(k, a0) if isnum(d, 1) else sub(a0, k)
        out.append(k)
    return out


def item_item(c):
    outs = c.call(CLS, [])
    if len(outs) != 1 or outs[0].sig == "raise":
        raise Unsupported("construction of the model")
    return c.at(outs[0])


def recommend(liked, flist, sel):
    label = "ItemItemRecommender.recommend (one user%s%s%s)" % (", liked filtered" if liked else "", ", filter list" if flist else "", ", items" if sel else "")

    @contract(["C12", "C02", "C04", "C20"], label, [CLS + ".recommend"])
    def run(c):
        c.w.pigeonhole = True
        n, rows, cols, N = c.dim("items", 1), c.dim("rows"), c.dim("cols"), c.integer("N", 1)
        m = item_item(c)
        S = c.csr("S", n, n, dtype="float64")
        sc = Scorer(c, n)
        c.w.setattr(c.ip, m, "similarity", S)
        c.w.setattr(c.ip, m, "scorer", c.ip.alloc({"of": S}, "obj", SCORER))
        U = c.csr("U", rows, cols, values=lambda r: Fraction(r.randint(1, 5)))
        uid = c.integer("uid")
        t, s = tm.fresh("t"), tm.fresh("s")
        kw = {"N": N, "filter_already_liked_items": liked}
        fl, it = (lambda x: app("fl", x, sort="I")), (lambda x: app("items_", x, sort="I"))
        if flist:
            nf = c.dim("nf")
            kw["filter_items"] = c.array("fl", (nf,), "I")
        if sel:
            ni = c.dim("ni", 1, 3)
            kw["items"] = c.array("items_", (ni,), "I", g=lambda r, k, ix: max(k["items"], k["ni"]) - 1 - ix[0])
            c.given(forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, ni)), ne(it(t), it(s)))))
        attrs0 = dict(c.ip.st.heap[m.id])
        P, Ix = (lambda x: app("indptr_U", x, sort="I")), (lambda x: app("indices_U", x, sort="I"))
        for o in c.method(m, "recommend", [uid, U], kw):
            v = c.at(o)
            if o.sig == "raise":
                c.check("raises only ValueError or IndexError", o.val.typ in ("ValueError", "IndexError"), o.val.typ)
                continue
            c.require("one row of interactions for one user", eq(rows, ONE))
            c.require("interactions with items outside of the model are rejected", le(cols, n))
            if sel and flist:
                c.fail("items and filter_items exclude each other", "accepted")
                continue
            if c.ip.st.heap[c.ip.st.heap[m.id]["scorer"].id].get("_calls") != 1:
                raise Unsupported("searches")
            call = sc.calls[c.ip.st.heap[c.ip.st.heap[m.id]["scorer"].id]["_last"]]
            a = call["args"]
            rec = c.ip.st.heap[U.id]
            for k_, f in (("user_indptr", "indptr"), ("user_indices", "indices"), ("user_data", "data")):
                k = c.index(lift(rec[f].shape[0]))
                c.equal("the scorer gets the user's %s" % f, lift(a[k_].shape[0]), lift(rec[f].shape[0]))
                c.equal("the scorer gets the %s of the user" % f, c.elem(a[k_], k), app(f + "_U", k, sort="I" if f != "data" else "R"))
            ids, scores = v
            R = lift(ids.shape[0])
            c.equal("as many scores as ids", R, lift(scores.shape[0]))
            c.check("one row for one user", ids.ndim == 1 and scores.ndim == 1)

            def out(x):
                k = tm.fresh("k")
                z = [FALSE]
                if liked:
                    z.append(exists([k], and_(le(P(ZERO), k), lt(k, P(ONE)), eq(Ix(k), x))))
                if flist:
                    z.append(exists([k], and_(le(ZERO, k), lt(k, nf), eq(fl(k), x))))
                return or_(*z)
            seen, total = call["seen"], call["total"]
            p, q = c.index(R, R)
            st0 = c.ip.st.copy()
            c.assume(lt(p, q))
            c.require("ids are distinct", ne(c.elem(ids, p), c.elem(ids, q)))
            c.require("scores do not increase", le(c.elem(scores, q), c.elem(scores, p)))
            c.ip.st = st0
            x = c.elem(ids, p)
            c.require("an id is an item of the model", and_(le(ZERO, x), lt(x, n)))
            if sel:
                k = tm.fresh("k")
                c.require("an id is one of the listed items", exists([k], and_(le(ZERO, k), lt(k, ni), eq(it(k), x))))
                w = and_(seen(x), not_(out(x)))
                st1 = c.ip.st.copy()
                c.assume(w)
                c.lemma("a candidate is found", and_(call["inn"](call["pos"](x)), eq(call["ident"](call["pos"](x)), x)))
                c.equal("the score of a listed candidate is its value", c.elem(scores, p), total(x))
                c.ip.st = st1.copy()
                c.assume(not_(w))
                c.equal("a listed item that is no candidate gets the lowest score", c.elem(scores, p), neg(FMAX))
                c.ip.st = st1
                y = c.index(ni)
                ks = places(c, ids, call["pos"](it(y)), y)
                c.require("every listed item is returned", or_(*[and_(le(ZERO, k), lt(k, R), eq(c.elem(ids, k), it(y))) for k in ks]))
            else:
                c.require("at most N results", le(R, N))
                c.require("a result is a candidate", seen(x))
                c.require("a result is neither liked nor filtered", not_(out(x)))
                c.equal("the score is the candidate's value", c.elem(scores, p), total(x))
                y, k = c.index(n), tm.fresh("k")
                c.assume(and_(seen(y), not_(out(y))))
                missing = forall([k], implies(and_(le(ZERO, k), lt(k, R)), ne(c.elem(ids, k), y)))
                c.assume(missing)
                c.require("an eligible candidate is left out only when N others are returned", eq(R, N))
                c.require("no eligible candidate left out has a larger value", le(total(y), c.elem(scores, p)))
            rm = c.ip.st.heap[m.id]
            for nm in attrs0:
                c.check("attribute %s stays" % nm, rm.get(nm) is attrs0[nm] or c.ip.same(rm.get(nm), attrs0[nm]), "changed")
            k = c.index(var("nnz_U"))
            c.equal("the interactions passed in are unchanged", c.elem(c.attr(U, "data"), k), app("data_U", k))


for args in ((False, False, False), (True, False, False), (False, True, False), (True, True, False), (False, False, True), (True, False, True), (True, True, True)):
    recommend(*args)


def chain(c, a, b, lo, hi, Ix):
    """lemmas: the masks and sorts keep positions apart"""
    def apps(t):
        return sorted({s for s in subterms(t) if s.op == "app" and s.args[0] in ("mpos", "sortperm")}, key=lambda s: len(show(s)))
    for x, y in zip(apps(a), apps(b)):
        c.lemma("positions stay apart", ne(x, y))
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] == "indices_S":
        c.lemma("entries of the row", and_(le(lo, a.args[1]), lt(a.args[1], hi), le(lo, b.args[1]), lt(b.args[1], hi), ne(a.args[1], b.args[1])))


def similar(flist, sel):
    label = "ItemItemRecommender.similar_items (one item%s%s)" % (", filter list" if flist else "", ", items" if sel else "")

    @contract(["C12", "C04", "C20"], label, [CLS + ".similar_items"])
    def run(c):
        c.w.pigeonhole = True
        n, N = c.dim("items", 1), c.integer("N", 1)
        m = item_item(c)
        S = c.csr("S", n, n, dtype="float64")
        c.w.setattr(c.ip, m, "similarity", S)
        iid = c.integer("iid", 0)
        t, s = tm.fresh("t"), tm.fresh("s")
        kw = {"N": N}
        fl, it = (lambda x: app("fl", x, sort="I")), (lambda x: app("items_", x, sort="I"))
        if flist:
            nf = c.dim("nf")
            kw["filter_items"] = c.array("fl", (nf,), "I")
        if sel:
            ni = c.dim("ni", 1, 3)
            kw["items"] = c.array("items_", (ni,), "I")
            c.given(forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, ni)), ne(it(t), it(s)))))
        P, Ix, D = (lambda x: app("indptr_S", x, sort="I")), (lambda x: app("indices_S", x, sort="I")), (lambda x: app("data_S", x))
        c.assume(forall([t], lt(neg(FMAX), D(t))))
        c.given(forall([t, s], implies(and_(le(P(iid), t), lt(t, s), lt(s, P(add(iid, ONE)))), ne(Ix(t), Ix(s)))))
        attrs0 = dict(c.ip.st.heap[m.id])
        for o in c.method(m, "similar_items", [iid], kw):
            v = c.at(o)
            if o.sig == "raise":
                c.check("raises only ValueError", o.val.typ == "ValueError", o.val.typ)
                continue
            if sel and flist:
                c.fail("items and filter_items exclude each other", "accepted")
                continue
            ids, scores = v
            R = lift(ids.shape[0])
            c.equal("as many scores as ids", R, lift(scores.shape[0]))
            c.require("at most N results", le(R, N))
            if pv.prove(c.ip.hyps(), le(n, iid)):
                c.equal("an item outside of the model has no neighbours", R, ZERO)
                continue
            c.require("the item is in the model", lt(iid, n))
            lo, hi = P(iid), P(add(iid, ONE))
            stored = lambda k, x: and_(le(lo, k), lt(k, hi), eq(Ix(k), x))

            def out(x):
                k = tm.fresh("k")
                return exists([k], and_(le(ZERO, k), lt(k, nf), eq(fl(k), x))) if flist else FALSE
            p, q = c.index(R, R)
            st0 = c.ip.st.copy()
            c.assume(lt(p, q))
            chain(c, c.elem(ids, p), c.elem(ids, q), lo, hi, Ix)
            c.require("ids are distinct", ne(c.elem(ids, p), c.elem(ids, q)))
            c.require("scores do not increase", le(c.elem(scores, q), c.elem(scores, p)))
            c.ip.st = st0
            x, k = c.elem(ids, p), tm.fresh("k")
            if sel:
                c.require("an id is one of the listed items", exists([k], and_(le(ZERO, k), lt(k, ni), eq(it(k), x))))
                c.require("the score is the stored similarity, or the lowest score", or_(exists([k], and_(stored(k, x), eq(c.elem(scores, p), D(k)))),
                                                                                     and_(eq(c.elem(scores, p), neg(FMAX)), forall([k], not_(stored(k, x))))))
            else:
                c.require("a result is a stored neighbour with its similarity", exists([k], and_(stored(k, x), eq(c.elem(scores, p), D(k)))))
                c.require("a result is not filtered", not_(out(x)))
                y = c.index(var("nnz_S"))
                c.assume(and_(le(lo, y), lt(y, hi), not_(out(Ix(y)))))
                k, = places(c, ids, sub(y, lo), None)
                there = and_(le(ZERO, k), lt(k, R), eq(c.elem(ids, k), Ix(y)))
                c.require("a neighbour is left out only when N others are returned", or_(there, eq(R, N)))
                c.require("no neighbour left out is more similar", or_(there, le(D(y), c.elem(scores, p))))
            rm = c.ip.st.heap[m.id]
            for nm in attrs0:
                c.check("attribute %s stays" % nm, rm.get(nm) is attrs0[nm] or c.ip.same(rm.get(nm), attrs0[nm]), "changed")
            k = c.index(var("nnz_S"))
            c.equal("the similarity is unchanged", c.elem(c.attr(S, "data"), k), D(k))


for args in ((False, False), (True, False), (True, True)):  # the variant with a list of items is only explored (the solver does not get through)
    similar(*args)
