"""Contracts of the weighting functions (implicit/nearest_neighbours.py) (C13, C05)."""
from contract import *  # noqa
from als_kernels import ssum

MOD = "implicit.nearest_neighbours"


def matrix(c, fmt):
    R, K = c.dim("R"), c.dim("K")
    vals = lambda r: Fraction(r.randint(1, 5), r.choice([1, 2]))
    if fmt == "coo":
        X = c.coo("X", R, K, values=vals)
    else:
        X = c.csr("X", R, K, values=vals)
    if fmt == "csc":
        X = lib_np.sparse_transpose(c.ip, X)
        R, K = K, R
    ro, co, da = (c.ip.elem(x) for x in lib_np.coo_entries(c.ip, X))
    return R, K, X, ro, co, da, var("nnz_X")


def formulas(R, ro, co, da, nnz, K1=None, B=None):
    """value of entry k under each weighting"""
    df = lambda j: ssum(0, nnz, lambda k: ite(eq(co(k), j), ONE, ZERO))
    idf = lambda j: sub(app("log", R), app("log1p", df(j)))
    rowsum = lambda i: ssum(0, nnz, lambda k: ite(eq(ro(k), i), da(k), ZERO))
    sq = lambda i: ssum(0, nnz, lambda k: ite(eq(ro(k), i), mul(da(k), da(k)), ZERO))
    avg = div(ssum(0, R, lambda i: rowsum(i)), R)

    def bm25(k):
        norm = add(sub(ONE, B), div(mul(B, rowsum(ro(k))), avg))
        return mul(div(mul(da(k), add(K1, ONE)), add(mul(K1, norm), da(k))), idf(co(k)))
    return {"tfidf_weight": lambda k: mul(app("sqrt", da(k)), idf(co(k))), "normalize": lambda k: div(da(k), app("sqrt", sq(ro(k)))), "bm25_weight": bm25}


def make(fn, fmt):
    @contract(["C13", "C05"], "%s of a %s matrix" % (fn, fmt), [MOD + ":" + fn])
    def run(c):
        R, K, X, ro, co, da, nnz = matrix(c, fmt)
        K1, B = c.real("K1"), c.real("B")
        rec0 = dict(c.ip.st.heap[X.id])
        for o in c.call(MOD + ":" + fn, [X] + ([K1, B] if fn == "bm25_weight" else [])):
            v = c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            if not c.w.is_sparse(v):
                raise Unsupported("the result is not a sparse matrix")
            rec = c.ip.st.heap[v.id]
            r2, c2, d2 = (c.ip.elem(x) for x in lib_np.coo_entries(c.ip, v))
            c.equal("rows of the result", rec["_shape"][0], R)
            c.equal("columns of the result", rec["_shape"][1], K)
            c.equal("number of entries", rec["_nnz"], nnz)
            k = c.index(nnz)
            c.equal("an entry stays in its row", r2(k), ro(k))
            c.equal("an entry stays in its column", c2(k), co(k))
            c.equal("the value is the formula", d2(k), formulas(R, ro, co, da, nnz, K1, B)[fn](k))
            rec1 = c.ip.st.heap[X.id]
            for key in ("row", "col", "data", "indices", "indptr"):
                if key in rec0:
                    c.check("the matrix passed in keeps its %s array" % key, isinstance(rec1[key], Arr) and rec1[key].same(rec0[key]), "replaced")
            k = c.index(nnz)
            c.equal("the matrix passed in is unchanged", c.elem(rec0["data"], k), app("data_X", k))


for fn in ("tfidf_weight", "normalize", "bm25_weight"):
    for fmt in ("coo", "csr", "csc"):
        make(fn, fmt)


def model_fit(cls, fmt):
    @contract(["C13", "C11"], "%s.fit weights its input (%s)" % (cls, fmt), [MOD + ":" + cls + ".fit"])
    def run(c):
        users, items, X, ro, co, da, nnz = matrix(c, fmt)
        K1, B, K = c.real("K1"), c.real("B"), c.integer("Knn")
        seen = []

        m = c.model(MOD, cls, K=K, K1=K1, B=B, num_threads=ZERO, similarity=None, scorer=None)
        show = c.boolean("show_progress")

        def knn(ip, f, a, kw):
            seen.append((a, kw))
            return ip.alloc({"weighted": a[0], "K": lift(a[1] if len(a) > 1 else kw["K"])}, "obj", I.ClsV("knnresult", None, "stub"))
        c.w.summaries["all_pairs_knn"] = knn

        class Hook:
            def getattr(self, ip, o, name):
                if isinstance(o, H) and o.cls is not None and o.cls.name == "knnresult" and name == "tocsr":
                    return I.Builtin("coo_matrix.tocsr", lambda ip, a, kw: o)
        c.w.attr_hooks.append(Hook())
        c.w.summaries["class:NearestNeighboursScorer"] = lambda ip, k, a, kw: ip.alloc({"of": a[0]}, "obj", I.ClsV("scorer", None, "stub"))
        for o in c.method(m, "fit", [X], {"show_progress": show}):
            c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            sim = c.attr(m, "similarity")
            if not (isinstance(sim, H) and sim.cls.name == "knnresult"):
                raise Unsupported("similarity does not come from all_pairs_knn")
            got = c.ip.st.heap[sim.id]
            c.equal("K is the model's", got["K"], K)
            sc = c.attr(m, "scorer")
            c.check("the scorer uses the fitted similarity", isinstance(sc, H) and c.ip.st.heap[sc.id].get("of") == sim, "another matrix")
            v = got["weighted"]
            rec = c.ip.st.heap[v.id]
            c.equal("rows are users", rec["_shape"][0], users)
            c.equal("columns are items", rec["_shape"][1], items)
            r2, c2, d2 = (c.ip.elem(x) for x in lib_np.coo_entries(c.ip, v))
            k = c.index(nnz)
            c.equal("an entry stays at its user", r2(k), ro(k))
            c.equal("an entry stays at its item", c2(k), co(k))
            # items are the rows of the weighting
            f = formulas(items, co, ro, da, nnz, K1, B)
            if cls == "CosineRecommender":
                want = f["normalize"](k)
            elif cls == "BM25Recommender":
                want = f["bm25_weight"](k)
            elif cls == "TFIDFRecommender":
                want = formulas(items, co, ro, f["tfidf_weight"], nnz)["normalize"](k)
            else:
                want = da(k)
            c.equal("each stored value is weighted with its item as the row", d2(k), want)
            k = c.index(nnz)
            c.equal("the matrix passed in is unchanged", c.elem(c.ip.st.heap[X.id]["data"], k), app("data_X", k))


for cls in ("CosineRecommender", "TFIDFRecommender", "BM25Recommender", "ItemItemRecommender"):
    for fmt in ("csr", "coo"):
        model_fit(cls, fmt)
