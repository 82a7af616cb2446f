"""Contracts of the queries of factor models (implicit/cpu/matrix_factorization_base.py): recommend, similar_items, similar_users
(C01, C02, C03, C04, C05, C20).  topk is used through its contract (topk.py), recalculate_user/item through theirs."""
from contract import *  # noqa
from als_kernels import ssum
from als_python import als_model
from als_partial import recalculated, filled, coherent, CACHES, norms_of
from topk import Topk, FMAX, row_has, topk_contract  # noqa

MOD = "implicit.cpu.matrix_factorization_base"
MF = MOD + ":MatrixFactorizationBase"
ALS = "implicit.cpu.als:AlternatingLeastSquares"


@contract(["C01", "C02", "C04", "C05", "C20"], "_filter_items_from_sparse_matrix", [MOD + ":_filter_items_from_sparse_matrix"])
def filter_items(c):
    rows, cols, m = c.dim("rows"), c.dim("cols"), c.dim("m", 1)
    Q = c.csr("Q", rows, cols, values=lambda r: Fraction(r.randint(1, 5)))
    t, s = tm.fresh("t"), tm.fresh("s")
    it = lambda x: app("items", x, sort="I")
    c.given(forall([t], implies(and_(le(ZERO, t), lt(t, var("nnz_Q"))), ne(app("data_Q", t), ZERO))))
    items = c.array("items", (m,), "I", g=lambda r, k, ix: 2 * ix[0])
    c.given(forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, m)), lt(it(t), it(s)))))
    c.given(forall([t], implies(and_(le(ZERO, t), lt(t, m)), le(ZERO, it(t)))))
    for o in c.call(MOD + ":_filter_items_from_sparse_matrix", [items, Q]):
        v = c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        if not c.w.is_sparse(v):
            raise Unsupported("the result is not a sparse matrix")
        rec = c.ip.st.heap[v.id]
        c.check("the result is a CSR matrix", v.cls.name.startswith("csr"), v.cls.name)
        c.equal("as many rows as before", rec["_shape"][0], rows)
        if "_links" in rec:
            rec["_links"](c.ip)
        P, Ix = c.ip.elem(rec["indptr"]), c.ip.elem(rec["indices"])
        P0, I0 = (lambda x: app("indptr_Q", x, sort="I")), (lambda x: app("indices_Q", x, sort="I"))
        r, t = c.index(rows, rec["_nnz"])
        st0 = c.ip.st.copy()
        c.assume(and_(le(P(r), t), lt(t, P(add(r, ONE)))))
        c.require("an entry of the result is a position in the list", and_(le(ZERO, Ix(t)), lt(Ix(t), m)))
        s = tm.fresh("s")
        c.require("an entry of the result stands for a stored entry of the same row", exists([s], and_(le(P0(r), s), lt(s, P0(add(r, ONE))), eq(I0(s), it(Ix(t))))))
        c.ip.st = st0
        s, p = c.index(var("nnz_Q"), m)
        c.assume(and_(le(P0(r), s), lt(s, P0(add(r, ONE))), eq(I0(s), it(p))))
        src = rec.get("_from")
        rs = c.ip.st.heap[src.id] if src is not None else {}
        ok = "_rank" in rs
        if ok:
            # the witness: where the entry went, with the steps of the argument as lemmas
            R = [x for x in subterms(c.ip.elem(rs["row"])(var("probe"))) if x.op == "app" and x.args[0] == "rowof"]
            if R:
                row = app("rowof", *R[0].args[1:-1], s, sort="I")
                ok = c.lemma("the row of the entry", eq(row, r)) and ok
            k = rs["_rank"](s)
            ok = ok and c.lemma("the entry is kept", and_(le(ZERO, k), lt(k, rs["_nnz"]), eq(rs["_pos"](k), s)))
            ok = ok and c.lemma("its column becomes its position", eq(c.ip.elem(rs["col"])(k), p))
            ok = ok and c.lemma("its row stays", eq(c.ip.elem(rs["row"])(k), r))
            t = rec["_dst"](k)
            ok = ok and c.lemma("it is found again", and_(le(ZERO, t), lt(t, rec["_nnz"]), eq(rec["_src"](t), k)))
        if ok:
            c.require("every stored entry whose column is listed is in the result", and_(le(P(r), t), lt(t, P(add(r, ONE))), eq(Ix(t), p)))
        else:
            t = tm.fresh("t")
            c.require("every stored entry whose column is listed is in the result", exists([t], and_(le(P(r), t), lt(t, P(add(r, ONE))), eq(Ix(t), p))))
        k = c.index(var("nnz_Q"))
        rq = c.ip.st.heap[Q.id]
        c.equal("the matrix passed in is unchanged", c.elem(rq["data"], k), app("data_Q", k))
        c.equal("its columns are unchanged", c.elem(rq["indices"], k), I0(k))
        c.equal("the list passed in is unchanged", c.elem(items, p), it(p))


def filtered_summary(ip, f, a, kw):
    """_filter_items_from_sparse_matrix used through its contract"""
    items, Q = a
    if not isinstance(items, Arr) or not ip.w.is_sparse(Q):
        raise Unsupported("arguments of _filter_items_from_sparse_matrix")
    e = ip.elem(items)
    m = lift(items.shape[0])
    t, s = tm.fresh("t"), tm.fresh("s")
    ip.oblige("precondition of _filter_items_from_sparse_matrix: the list is sorted and distinct", forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, m)), lt(e(t), e(s)))))
    has = row_has(ip, Q)
    rec = ip.st.heap[Q.id]
    return ip.alloc({"_shape": rec["_shape"], "_nnz": var(ip.nm("nnz_filtered")), "_has": lambda r, p: has(r, e(p)), "_limit": m}, "obj", I.ClsV("csr_matrix", None, "ext"))


def model(c, users, items, n, native=None):
    return als_model(c, users, items, n)


def recommend(scalar, liked, flist, sel, recalc):
    label = "recommend (%s%s%s%s%s)" % ("one user" if scalar else "users", ", liked filtered" if liked else "", ", filter list" if flist else "", ", items" if sel else "", ", recalculated" if recalc else "")

    @contract(["C01", "C02", "C04", "C05", "C20"] + (["C09"] if recalc else []), label, [MF + ".recommend", MF + "._user_factor"])
    def run(c):
        tk = Topk(c)
        c.w.summaries["implicit.cpu.topk:topk"] = tk
        c.w.summaries[MOD + ":_filter_items_from_sparse_matrix"] = filtered_summary
        c.w.summaries[ALS + ".recalculate_user"] = recalculated("user")
        users, items, n, q = c.dim("users", 1), c.dim("items", 1), c.dim("factors", 1), c.dim("q")
        m, X, Y = als_model(c, users, items, n)
        N = c.integer("N", 1)
        cnt = ONE if scalar else q
        rows = c.dim("rows", like=cnt)
        cols = c.integer("cols", 0, g=lambda r, k: k["items"] + (r.random() < .1))
        C_ = c.csr("C", rows, cols, values=lambda r: Fraction(r.randint(1, 5)))
        t, s = tm.fresh("t"), tm.fresh("s")
        c.given(forall([t], implies(and_(le(ZERO, t), lt(t, var("nnz_C"))), ne(app("data_C", t), ZERO))))
        uid = c.integer("uid", g=lambda r, k: r.randint(0, k["users"] - (r.random() < .9))) if scalar else c.array("uids", (q,), "I", g=lambda r, k, ix: r.randint(0, k["users"] - 1))
        if scalar:
            c.given(le(ZERO, uid))
        else:
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, q)), le(ZERO, app("uids", t, sort="I")))))
        kw = {"N": N, "filter_already_liked_items": liked, "recalculate_user": recalc}
        c.gens.append(lambda r, k, f: k.__setitem__("FMAX", Fraction(10 ** 7)))
        fl = lambda x: app("fl", x, sort="I")
        it = lambda x: app("items_", x, sort="I")
        if flist:
            nf = c.dim("nf")
            F = kw["filter_items"] = c.array("fl", (nf,), "I", g=lambda r, k, ix: r.randint(0, k["items"] - (r.random() < .9)))
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, nf)), le(ZERO, fl(t)))))
        if sel:
            ni = c.dim("ni", 1, 3)
            L = kw["items"] = c.array("items_", (ni,), "I", g=lambda r, k, ix: max(k["items"], k["ni"]) - 1 - ix[0])
            c.given(forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, ni)), ne(it(t), it(s)))))
            c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, ni)), le(ZERO, it(t)))))
        attrs0 = dict(c.ip.st.heap[m.id])
        for o in c.method(m, "recommend", [uid, C_], kw):
            v = c.at(o)
            t = tm.fresh("t")
            if o.sig == "raise":
                c.check("raises only ValueError or IndexError", o.val.typ in ("ValueError", "IndexError"), o.val.typ)
                continue
            if liked or recalc:
                c.require("one row of interactions per user", eq(rows, cnt))
            if not recalc:
                if scalar:
                    c.require("an unknown user is rejected", lt(uid, users))
                else:
                    c.require("an unknown user is rejected", forall([t], implies(and_(le(ZERO, t), lt(t, q)), lt(app("uids", t, sort="I"), users))))
            if sel and flist:
                c.require("items and filter_items exclude each other", eq(nf, ZERO))
            ids, sc = v
            cand = ni if sel else items
            kk = min_(N, cand)
            if scalar:
                c.equal("min(N, candidates) ids", lift(ids.shape[0]), kk)
                c.equal("as many scores", lift(sc.shape[0]), kk)
                c.check("one row for one user", ids.ndim == 1 and sc.ndim == 1, "shape")
                r = ZERO
                at = lambda a, r, i: c.elem(a, i)
            else:
                c.equal("one row per user", lift(ids.shape[0]), q)
                c.equal("one row of scores per user", lift(sc.shape[0]), q)
                c.equal("min(N, candidates) ids", lift(ids.shape[1]), kk)
                c.equal("as many scores", lift(sc.shape[1]), kk)
                r = c.index(q)
                at = lambda a, r, i: c.elem(a, r, i)
            i, i2, p = c.index(kk, kk, cand)
            c.assume(lt(i, i2))
            u = uid if scalar else app("uids", r, sort="I")
            a, b = at(ids, r, i), at(ids, r, i2)
            # the score of an item of the model for this query
            if recalc:
                from als_fit import content, csr_content
                args = csr_content(c.ip, C_) + [content(c.ip, Y), var("reg", "R"), var("alpha", "R")]
                xu = lambda f: app("recalculated", *args, r, f)
            else:
                xu = lambda f: app("X", u, f)
            dot = lambda j: ssum(0, n, lambda f: mul(xu(f), app("Y", j, f)))
            P, Ix = (lambda x: app("indptr_C", x, sort="I")), (lambda x: app("indices_C", x, sort="I"))

            def out(j):
                x = tm.fresh("x")
                z = []
                if liked:
                    z.append(exists([x], and_(le(P(r), x), lt(x, P(add(r, ONE))), eq(Ix(x), j))))
                if flist and not sel:
                    z.append(exists([x], and_(le(ZERO, x), lt(x, nf), eq(fl(x), j))))
                return or_(*z) if z else FALSE
            score = lambda j: ite(out(j), neg(FMAX), dot(j)) if (liked or flist) else dot(j)
            call, ids0 = tk.call_of(a)
            rr = ids0[0].args[1]
            if sel:
                # position of a candidate in the sorted list
                srt = [s_ for s_ in subterms(a) if s_.op == "app" and s_.args[0] == "sortperm"]
                if not srt:
                    raise Unsupported("the list of items is not sorted")
                # every position of the list is that of one element of the sorted list
                j, p = p, app("sortperm", *srt[0].args[1:-1], p, sort="I")
                c.assume(and_(le(ZERO, p), lt(p, ni)))
            else:
                j = p
            inside = call.axioms(c, (rr,), i, i2, j)
            item = it(p) if sel else p
            if sel:
                x = tm.fresh("x")
                c.require("an id is one of the listed items", exists([x], and_(le(ZERO, x), lt(x, ni), eq(it(x), a))))
            c.require("an id is an item of the model", and_(le(ZERO, a), lt(a, items)))
            c.equal("a score is the score of its item", at(sc, r, i), score(a))
            c.require("ids are distinct", ne(a, b))
            c.require("scores do not increase", le(at(sc, r, i2), at(sc, r, i)))
            pos = app(call.name + "_pos", rr, j, sort="I")
            c.require("no candidate left out scores higher", or_(and_(le(ZERO, pos), lt(pos, kk), eq(at(ids, r, pos), item)), le(score(item), at(sc, r, i))))
            # frame
            rec = c.ip.st.heap[m.id]
            for nm in ("user_factors", "item_factors"):
                c.check("%s stays" % nm, isinstance(rec[nm], Arr) and rec[nm].same(attrs0[nm]), "replaced")
            for nm in attrs0:
                if nm not in ("user_factors", "item_factors"):
                    c.check("attribute %s stays" % nm, rec.get(nm) is attrs0[nm] or c.ip.same(rec.get(nm), attrs0[nm]), "changed")
            u_, f_, j_ = c.index(users, n, items)
            c.equal("user factors unchanged", c.elem(X, u_, f_), app("X", u_, f_))
            c.equal("item factors unchanged", c.elem(Y, j_, f_), app("Y", j_, f_))
            k = c.index(var("nnz_C"))
            c.equal("the interactions passed in are unchanged", c.elem(c.attr(C_, "data"), k), app("data_C", k))
            c.equal("their columns are unchanged", c.elem(c.attr(C_, "indices"), k), Ix(k))
            if sel:
                c.equal("the list of items is unchanged", c.elem(L, p), it(p))
            if flist:
                k = c.index(nf)
                c.equal("the filter list is unchanged", c.elem(F, k), fl(k))


for scalar in (True, False):
    for liked, flist, sel, recalc in ((False, False, False, False), (True, False, False, False), (True, True, False, False), (False, True, False, False),
                                      (True, False, True, False), (False, False, True, False), (True, True, True, False), (True, False, False, True), (True, False, True, True)):
        recommend(scalar, liked, flist, sel, recalc)


def similar(side, scalar, flist, sel, recalc, cached):
    label = "similar_%ss (%s%s%s%s%s)" % (side, "one" if scalar else "many", ", filter list" if flist else "", ", candidates" if sel else "", ", recalculated" if recalc else "", ", cached norms" if cached else "")

    @contract(["C03", "C04", "C05", "C20"] + (["C09"] if recalc or cached else []), label,
              [MF + ".similar_%ss" % side, MF + "._get_similarity_score"] + ([MF + "._item_factor"] if side == "item" else []))
    def run(c):
        tk = Topk(c)
        c.w.summaries["implicit.cpu.topk:topk"] = tk
        c.w.summaries[ALS + ".recalculate_item"] = recalculated("item")
        users, items, n, q = c.dim("users", 1), c.dim("items", 1), c.dim("factors", 1), c.dim("q")
        m, X, Y = als_model(c, users, items, n)
        if cached:
            filled(c, m)
        size, V = (items, Y) if side == "item" else (users, X)
        F = "Y" if side == "item" else "X"
        N = c.integer("N", 1)
        t, s = tm.fresh("t"), tm.fresh("s")
        cnt = ONE if scalar else q
        qid = c.integer("qid", g=lambda r, k: r.randint(0, k[side + "s"] - (r.random() < .9))) if scalar else c.array("qids", (q,), "I", g=lambda r, k, ix: r.randint(0, k[side + "s"] - 1))
        if scalar:
            c.given(le(ZERO, qid))
        else:
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, q)), le(ZERO, app("qids", t, sort="I")))))
        kw = {"N": N}
        c.gens.append(lambda r, k, f: k.__setitem__("FMAX", Fraction(10 ** 7)))
        c.assume(lt(ZERO, FMAX))
        fl = lambda x: app("fl", x, sort="I")
        it = lambda x: app("cand", x, sort="I")
        if flist:
            nf = c.dim("nf")
            Fl = kw["filter_%ss" % side] = c.array("fl", (nf,), "I", g=lambda r, k, ix: r.randint(0, k[side + "s"] - (r.random() < .9)))
            c.given(forall([t], implies(and_(le(ZERO, t), lt(t, nf)), le(ZERO, fl(t)))))
        if sel:
            ni = c.dim("ni", 1, 3)
            L = kw[side + "s"] = c.array("cand", (ni,), "I", g=lambda r, k, ix: max(k[side + "s"], k["ni"]) - 1 - ix[0])
            c.given(forall([t, s], implies(and_(le(ZERO, t), lt(t, s), lt(s, ni)), ne(it(t), it(s)))))
            c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, ni)), le(ZERO, it(t)))))
        if recalc:
            rows = c.dim("rows", like=cnt)
            cols = c.integer("cols", 0, g=lambda r, k: k["users"] + (r.random() < .1))
            C_ = kw["item_users"] = c.csr("C", rows, cols)
            kw["recalculate_item"] = True
        attrs0 = dict(c.ip.st.heap[m.id])
        for o in c.method(m, "similar_%ss" % side, [qid], kw):
            v = c.at(o)
            t = tm.fresh("t")
            if o.sig == "raise":
                c.check("raises only ValueError or IndexError", o.val.typ in ("ValueError", "IndexError"), o.val.typ)
                continue
            if recalc:
                c.require("one row of interactions per id", eq(rows, cnt))
            elif scalar:
                c.require("an unknown id is rejected", lt(qid, size))
            else:
                c.require("an unknown id is rejected", forall([t], implies(and_(le(ZERO, t), lt(t, q)), lt(app("qids", t, sort="I"), size))))
            if sel and flist:
                c.require("candidates and filter exclude each other", eq(nf, ZERO))
            ids, sc = v
            cand = ni if sel else size
            kk = min_(N, cand)
            if scalar:
                c.equal("min(N, candidates) ids", lift(ids.shape[0]), kk)
                c.equal("as many scores", lift(sc.shape[0]), kk)
                c.check("one row for one id", ids.ndim == 1 and sc.ndim == 1, "shape")
                r = ZERO
                at = lambda a, r, i: c.elem(a, i)
            else:
                c.equal("one row per id", lift(ids.shape[0]), q)
                c.equal("one row of scores per id", lift(sc.shape[0]), q)
                c.equal("min(N, candidates) ids", lift(ids.shape[1]), kk)
                c.equal("as many scores", lift(sc.shape[1]), kk)
                r = c.index(q)
                at = lambda a, r, i: c.elem(a, r, i)
            i, i2, p = c.index(kk, kk, cand)
            c.assume(lt(i, i2))
            u = qid if scalar else app("qids", r, sort="I")
            a, b = at(ids, r, i), at(ids, r, i2)
            if recalc:
                from als_fit import content, csr_content
                args = csr_content(c.ip, C_) + [content(c.ip, X), var("reg", "R"), var("alpha", "R")]
                xu = lambda f: app("recalculated", *args, r, f)
            else:
                xu = lambda f: app(F, u, f)

            def norm(row):
                w = app("sqrt", ssum(0, n, lambda f: mul(row(f), row(f))))
                return ite(eq(w, ZERO), div(ONE, num(10 ** 10)), w)
            dot = lambda j: ssum(0, n, lambda f: mul(xu(f), app(F, j, f)))
            nq = norm(xu)
            c.assume(lt(ZERO, nq))
            nj = lambda j: norm(lambda f: app(F, j, f))

            def out(j):
                x = tm.fresh("x")
                return exists([x], and_(le(ZERO, x), lt(x, nf), eq(fl(x), j))) if flist and not sel else FALSE
            raw = lambda j: ite(out(j), neg(FMAX), div(dot(j), nj(j)))
            score = lambda j: div(raw(j), nq)
            call, ids0 = tk.call_of(a)
            rr = ids0[0].args[1]
            j = p
            if sel:
                srt = [s_ for s_ in subterms(a) if s_.op == "app" and s_.args[0] == "sortperm"]
                if srt:
                    j, p = p, app("sortperm", *srt[0].args[1:-1], p, sort="I")
                    c.assume(and_(le(ZERO, p), lt(p, ni)))
            call.axioms(c, (rr,), i, i2, j)
            item = it(p) if sel else p
            if sel:
                x = tm.fresh("x")
                c.require("an id is one of the candidates", exists([x], and_(le(ZERO, x), lt(x, ni), eq(it(x), a))))
            c.require("an id is one of the model", and_(le(ZERO, a), lt(a, size)))
            c.equal("a score is the cosine similarity", at(sc, r, i), score(a))
            c.require("ids are distinct", ne(a, b))
            c.require("scores do not increase", le(at(sc, r, i2), at(sc, r, i)))
            pos = app(call.name + "_pos", rr, j, sort="I")
            c.require("no candidate left out scores higher", or_(and_(le(ZERO, pos), lt(pos, kk), eq(at(ids, r, pos), item)), le(score(item), at(sc, r, i))))
            rec = c.ip.st.heap[m.id]
            for nm in ("user_factors", "item_factors"):
                c.check("%s stays" % nm, isinstance(rec[nm], Arr) and rec[nm].same(attrs0[nm]), "replaced")
            for nm in attrs0:
                if nm not in ("user_factors", "item_factors") and nm not in CACHES:
                    c.check("attribute %s stays" % nm, rec.get(nm) is attrs0[nm] or c.ip.same(rec.get(nm), attrs0[nm]), "changed")
            for nm in CACHES:
                coherent(c, m, nm)
            u_, f_, j_ = c.index(users, n, items)
            c.equal("user factors unchanged", c.elem(X, u_, f_), app("X", u_, f_))
            c.equal("item factors unchanged", c.elem(Y, j_, f_), app("Y", j_, f_))
            if recalc:
                k = c.index(var("nnz_C"))
                c.equal("the interactions passed in are unchanged", c.elem(c.attr(C_, "data"), k), app("data_C", k))
            if sel:
                c.equal("the list of candidates is unchanged", c.elem(L, p), it(p))
            if flist:
                k = c.index(nf)
                c.equal("the filter list is unchanged", c.elem(Fl, k), fl(k))


for side in ("user", "item"):
    for scalar in (True, False):
        for flist, sel, recalc, cached in ((False, False, False, False), (False, False, False, True), (True, False, False, True), (False, True, False, True), (True, True, False, False), (False, False, True, True), (False, True, True, False)):
            if not recalc or side == "item":
                similar(side, scalar, flist, sel, recalc, cached)
