"""C05: frame conditions"""
import io
import numpy as np
import scipy.sparse as sp
from core import *
from p_c02 import pick, knn_model


def cases(ctx):
    r = ctx.rng("C05")
    s = lambda: int(r.integers(1 << 30))
    n = 160 if ctx.thorough else 14
    for _ in range(n):
        for dt in ("float32", "float64"):
            yield ("mf", dict(seed=s(), dtype=dt, cls=str(r.choice(["als", "bpr", "lmf"])), nq=int(r.choice([3, 100, 130]))))
            yield ("als", dict(seed=s(), dtype=dt, alpha=float(r.choice([1.0, 2.5]))))
            yield ("knn", dict(seed=s(), dtype=dt))
        yield ("metrics", dict(seed=s()))
        yield ("splits", dict(seed=s(), fmt=str(r.choice(["csr", "coo", "csc"])), dtype=str(r.choice(["float32", "float64", "int32"]))))
        yield ("weights", dict(seed=s(), fmt=str(r.choice(["csr", "coo", "csc", "lil"])), dtype=str(r.choice(["float32", "float64", "int64"]))))
        for m in ("als", "als_exact", "als_py", "bpr", "bpr_noverify", "lmf", "knn", "cosine", "tfidf", "bm25"):
            yield ("fit", dict(seed=s(), m=m, fmt=str(r.choice(["csr", "csr", "csr_unsorted", "coo", "csc"])), dtype=str(r.choice(["float32", "float64", "float64"])), alpha=float(r.choice([1.0, 2.0]))))
        yield ("save", dict(seed=s()))


class Watch:
    def __init__(self, what, *objs, model=None):
        self.what, self.objs, self.model = what, objs, model
        self.before = [snapshot(o) for o in objs]
        self.mstate = model_state(model) if model is not None else None

    def check(self, call):
        for i, (o, b) in enumerate(zip(self.objs, self.before)):
            need(same(snapshot(o), b), "%s: %s changed argument %d", self.what, call, i)
        if self.model is not None:
            need(same(model_state(self.model), self.mstate), "%s: %s changed the model", self.what, call)


def seq(watch, calls):
    """run calls; arguments, model and earlier results must never change"""
    results = []
    for nm, f in calls:
        out = f()
        watch.check(nm)
        for onm, o, snap in results:
            need(same(snapshot(o), snap), "%s: %s altered the result of an earlier %s", watch.what, nm, onm)
        results.append((nm, out, snapshot(out)))


def run(name, p):
    rng = prng(p)
    if name == "mf":
        dt = np.dtype(p["dtype"])
        U, I = 20, 25
        m = make_mf(p["cls"], int_factors(rng, U, 4, dt), int_factors(rng, I, 4, dt))
        ui = rand_csr(rng, U, I, .3, sort=bool(rng.random() < .5))
        q = rng.integers(0, U, p["nq"])
        qi = rng.integers(0, I, p["nq"])
        rows, row = ui[q], ui[3]
        fl, fa = [4, 2, 9], np.array([9, 1, 4])
        il, ia = [7, 3, 11, 5], np.array([12, 2, 8, 5])
        w = Watch(p["cls"], ui, q, qi, rows, row, fl, fa, il, ia, model=m)
        calls = [("recommend", lambda: m.recommend(3, row)), ("recommend batch", lambda: m.recommend(q, rows)),
                 ("recommend filter", lambda: m.recommend(q, rows, filter_items=fl)), ("recommend filter array", lambda: m.recommend(3, row, filter_items=fa)),
                 ("recommend items", lambda: m.recommend(3, row, items=il)), ("recommend items array", lambda: m.recommend(q, rows, items=ia)),
                 ("recommend items nofilter", lambda: m.recommend(q, rows, items=ia, filter_already_liked_items=False)),
                 ("similar_items", lambda: m.similar_items(2)), ("similar_items batch", lambda: m.similar_items(qi, filter_items=fa)),
                 ("similar_items items", lambda: m.similar_items(qi, items=ia)), ("similar_items items list", lambda: m.similar_items(1, items=il)),
                 ("similar_users", lambda: m.similar_users(2, filter_users=fl)), ("similar_users batch", lambda: m.similar_users(q, users=ia)),
                 ("recommend_all", lambda: m.recommend_all(ui)), ("rank_items", lambda: m.rank_items(3, row, il))]
        order = rng.permutation(len(calls))
        seq(w, [calls[i] for i in order] + [calls[order[0]]])
    elif name == "als":
        dt = np.dtype(p["dtype"])
        U, I = 12, 14
        m = make_mf("als", real_factors(rng, U, 3, dt), real_factors(rng, I, 3, dt), regularization=.2, alpha=p["alpha"])
        ui = rand_csr(rng, U, I, .3, negatives=.2, dtype=np.dtype(str(rng.choice(["float32", "float64"]))), empty_rows=0, sort=bool(rng.random() < .5))
        iu = ui.T.tocsr()
        q, qi = np.array([3, 1, 5]), np.array([2, 2, 7])
        a, b, c, d = ui[q], iu[qi], ui[3], iu[2]
        w = Watch("als", ui, iu, q, qi, a, b, c, d, model=m)
        _, _, W = m.explain(1, ui, 2)
        w2 = snapshot(W)
        calls = [("recalculate_user", lambda: m.recalculate_user(q, a)), ("recalculate_user 1", lambda: m.recalculate_user(3, c)),
                 ("recalculate_item", lambda: m.recalculate_item(qi, b)), ("recalculate_item 1", lambda: m.recalculate_item(2, d)),
                 ("recommend recalculated", lambda: m.recommend(q, a, recalculate_user=True)), ("recommend recalculated 1", lambda: m.recommend(3, c, recalculate_user=True, filter_items=[1])),
                 ("similar_items recalculated", lambda: m.similar_items(qi, recalculate_item=True, item_users=b)),
                 ("similar_items recalculated 1", lambda: m.similar_items(2, recalculate_item=True, item_users=d)),
                 ("explain", lambda: m.explain(1, ui, 2)[:2]), ("explain weights", lambda: m.explain(1, ui, 4, user_weights=W)[:2])]
        seq(w, [calls[i] for i in rng.permutation(len(calls))])
        need(same(snapshot(W), w2), "explain changed the user_weights passed in")
    elif name == "knn":
        m, Wm = knn_model(rng, 15, 16, 5)
        ui = rand_csr(rng, 8, 16, .3, dtype=np.dtype(p["dtype"]), sort=bool(rng.random() < .5))
        q = np.array([1, 4, 1, 6])
        qi = np.array([3, 3, 9])
        rows, row = ui[q], ui[4]
        fl, fa, il, ia = [4, 2], np.array([9, 1]), [7, 3, 11], np.array([12, 2, 8])
        w = Watch("knn", ui, q, qi, rows, row, fl, fa, il, ia, Wm, model=m)
        calls = [("recommend", lambda: m.recommend(4, row)), ("recommend batch", lambda: m.recommend(q, rows)), ("recommend filter", lambda: m.recommend(4, row, filter_items=fa)),
                 ("recommend filter batch", lambda: m.recommend(q, rows, filter_items=fl)), ("recommend items", lambda: m.recommend(4, row, items=il)),
                 ("recommend items batch", lambda: m.recommend(q, rows, items=ia)), ("nofilter", lambda: m.recommend(4, row, filter_already_liked_items=False)),
                 ("similar_items", lambda: m.similar_items(3)), ("similar_items batch", lambda: m.similar_items(qi)), ("similar filter", lambda: m.similar_items(3, filter_items=fa)),
                 ("similar items", lambda: m.similar_items(3, items=ia)), ("similar items list", lambda: m.similar_items(qi, items=il))]
        order = rng.permutation(len(calls))
        seq(w, [calls[i] for i in order] + [calls[i] for i in order[:4]])
    elif name == "metrics":
        from implicit import evaluation as E
        dt = np.float32
        m = make_mf("als", int_factors(rng, 20, 3, dt), int_factors(rng, 30, 3, dt))
        tr, te = rand_csr(rng, 20, 30, .2), rand_csr(rng, 20, 30, .1, empty_rows=.3, sort=bool(rng.random() < .5))
        w = Watch("metrics", tr, te, model=m)
        seq(w, [(f.__name__, lambda f=f: f(m, tr, te, K=5, show_progress=False)) for f in (E.precision_at_k, E.mean_average_precision_at_k, E.ndcg_at_k, E.AUC_at_k, E.ranking_metrics_at_k)])
    elif name == "splits":
        from implicit import evaluation as E
        r = rand_csr(rng, 25, 20, .3, dtype=np.dtype(p["dtype"]), negatives=.2, sort=bool(rng.random() < .5)).asformat(p["fmt"])
        w = Watch("splits", r)
        seq(w, [("train_test_split", lambda: E.train_test_split(r, .7, random_state=3)), ("leave_k_out", lambda: E.leave_k_out_split(r, K=1, random_state=3)),
                ("leave_k_out train_only", lambda: E.leave_k_out_split(r, K=2, train_only_size=.4, random_state=3))])
        for f in (lambda: E.train_test_split(r, .7, random_state=3), lambda: E.leave_k_out_split(r, K=1, random_state=3)):
            tr, te = f()
            tr.data[:] = 77
            te.data[:] = 77
            w.check("writing into the returned split")
    elif name == "weights":
        from implicit.nearest_neighbours import bm25_weight, normalize, tfidf_weight
        x = rand_csr(rng, 12, 10, .4, dtype=np.dtype(p["dtype"])).asformat(p["fmt"])
        w = Watch("weights", x)
        seq(w, [("tfidf", lambda: tfidf_weight(x)), ("bm25", lambda: bm25_weight(x)), ("normalize", lambda: normalize(x)), ("bm25 2", lambda: bm25_weight(x, 3, .5)), ("normalize 2", lambda: normalize(x))])
        from implicit.utils import augment_inner_product_matrix
        F = real_factors(rng, 9, 3, np.float32)
        w = Watch("augment", F)
        seq(w, [("augment", lambda: augment_inner_product_matrix(F)[1])])
    elif name == "fit":
        import implicit.nearest_neighbours as nn
        from implicit.cpu.als import AlternatingLeastSquares as A
        from implicit.cpu.bpr import BayesianPersonalizedRanking as Bp
        from implicit.cpu.lmf import LogisticMatrixFactorization as L
        base = rand_csr(rng, 15, 12, .3, dtype=np.dtype(p["dtype"]), empty_rows=.1, sort=p["fmt"] != "csr_unsorted")
        kw = dict(factors=3, random_state=1, num_threads=1, iterations=2)
        m = {"als": lambda: A(alpha=p["alpha"], **kw), "als_exact": lambda: A(use_cg=False, alpha=p["alpha"], **kw), "als_py": lambda: A(use_native=False, alpha=p["alpha"], **kw), "bpr": lambda: Bp(**kw),
             "bpr_noverify": lambda: Bp(verify_negative_samples=False, **kw), "lmf": lambda: L(**kw), "knn": lambda: nn.ItemItemRecommender(K=3, num_threads=1),
             "cosine": lambda: nn.CosineRecommender(K=3), "tfidf": lambda: nn.TFIDFRecommender(K=3), "bm25": lambda: nn.BM25Recommender(K=3)}[p["m"]]()
        if p["m"] == "knn" and base.dtype != np.float64:
            base = base.astype(np.float64)
        x = base if p["fmt"].startswith("csr") else base.asformat(p["fmt"])
        dense, shape, dtype, fmt, nnz = x.toarray(), x.shape, x.dtype, x.format, x.nnz
        m.fit(x, show_progress=False)
        need(x.shape == shape and x.dtype == dtype and x.format == fmt and x.nnz == nnz and np.array_equal(x.toarray(), dense), "%s.fit changed the matrix passed in", p["m"])
        # the model keeps no live reference through which the caller's matrix is later modified
        if hasattr(m, "partial_fit_users"):
            m.partial_fit_users([0], base[0].astype(np.float32))
        else:
            m.recommend(0, base[0])
        need(np.array_equal(x.toarray(), dense), "%s changed the matrix passed to fit later on", p["m"])
    else:
        from implicit.cpu.als import AlternatingLeastSquares as A
        m = A(factors=3, random_state=1, iterations=1, num_threads=1)
        x = rand_csr(rng, 15, 12, .3)
        m.fit(x, show_progress=False)
        k, _ = knn_model(rng, 10, 9, 3)
        for mm in (m, k):
            w = Watch("save", model=mm)
            b = io.BytesIO()
            mm.save(b)
            w.check("save")
            import pickle
            pickle.dumps(mm)
            w.check("pickle")
            if mm is k:
                need(mm.scorer is not None, "pickling dropped the scorer of the model")
