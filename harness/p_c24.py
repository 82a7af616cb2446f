"""C24: constructors and factories"""
import inspect
import numpy as np
from core import *

SETTINGS = {
    "als": dict(factors=7, regularization=.3, alpha=2.5, dtype=np.float64, use_native=False, use_cg=False, iterations=4, calculate_training_loss=True, num_threads=3, random_state=11),
    "bpr": dict(factors=7, learning_rate=.3, regularization=.2, dtype=np.float64, iterations=4, num_threads=3, verify_negative_samples=False, random_state=11),
    "lmf": dict(factors=7, learning_rate=.4, regularization=.2, dtype=np.float64, iterations=4, neg_prop=5, num_threads=3, random_state=11),
}
DEFAULT = {
    "als": dict(factors=100, regularization=.01, alpha=1.0, dtype=np.float32, use_native=True, use_cg=True, iterations=15, calculate_training_loss=False, num_threads=0, random_state=None),
    "bpr": dict(factors=100, learning_rate=.01, regularization=.01, dtype=np.float32, iterations=100, num_threads=0, verify_negative_samples=True, random_state=None),
    "lmf": dict(factors=30, learning_rate=1.0, regularization=.6, dtype=np.float32, iterations=30, neg_prop=30, num_threads=0, random_state=None),
}
POS = {"als": ("factors", "regularization", "alpha", "dtype", "use_native", "use_cg"), "bpr": ("factors", "learning_rate", "regularization", "dtype", "iterations"), "lmf": ("factors", "learning_rate", "regularization", "dtype", "iterations", "neg_prop")}
ANN = {"AnnoyAlternatingLeastSquares": dict(approximate_similar_items=False, approximate_recommend=False, n_trees=9, search_k=7),
       "NMSLibAlternatingLeastSquares": dict(approximate_similar_items=False, approximate_recommend=False, method="sw-graph", index_params={"M": 5}, query_params={"ef": 3}),
       "FaissAlternatingLeastSquares": dict(approximate_similar_items=False, approximate_recommend=False, nlist=9, nprobe=3)}


def cases(ctx):
    for k in SETTINGS:
        yield ("ctor", dict(kind=k, via="class"))
        yield ("ctor", dict(kind=k, via="factory"))
        for n in SETTINGS[k]:
            yield ("one", dict(kind=k, via="class", name=n))
            yield ("one", dict(kind=k, via="factory", name=n))
    for a in ANN:
        yield ("ann", dict(name=a))
        for n in ANN[a]:
            yield ("ann_one", dict(name=a, arg=n))
        for n in SETTINGS["als"]:
            yield ("ann_als", dict(name=a, arg=n))
    yield ("knn", {})
    yield ("forname", {})


def ctor(kind, via):
    if via == "factory":
        import implicit.als, implicit.bpr, implicit.lmf
        f = {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking, "lmf": implicit.lmf.LogisticMatrixFactorization}[kind]
        return lambda *a, **k: f(*a, use_gpu=False, **k)
    import implicit.cpu.als, implicit.cpu.bpr, implicit.cpu.lmf
    return {"als": implicit.cpu.als.AlternatingLeastSquares, "bpr": implicit.cpu.bpr.BayesianPersonalizedRanking, "lmf": implicit.cpu.lmf.LogisticMatrixFactorization}[kind]


def cls(kind):
    return ctor(kind, "class")


def check(m, want, what):
    for k, v in want.items():
        got = getattr(m, k)
        if k == "dtype":
            need(np.dtype(got) == np.dtype(v), "%s: dtype is %s, given %s", what, got, v)
        else:
            need(got == v and isinstance(got, bool) == isinstance(v, bool), "%s: %s is %r, given %r", what, k, got, v)


def run(name, p):
    if name == "ctor":
        k = p["kind"]
        f = ctor(k, p["via"])
        m = f()
        need(type(m) is cls(k), "built a %s", type(m))
        check(m, DEFAULT[k], "defaults of %s %s" % (k, p["via"]))
        need(m.user_factors is None and m.item_factors is None, "a new model has factors")
        check(f(**SETTINGS[k]), SETTINGS[k], "%s %s" % (k, p["via"]))
        n = POS[k] if p["via"] == "class" or k != "als" else POS[k]
        check(f(*[SETTINGS[k][x] for x in n]), dict(DEFAULT[k], **{x: SETTINGS[k][x] for x in n}), "%s %s positional" % (k, p["via"]))
    elif name == "one":
        k = p["kind"]
        check(ctor(k, p["via"])(**{p["name"]: SETTINGS[k][p["name"]]}), dict(DEFAULT[k], **{p["name"]: SETTINGS[k][p["name"]]}), "%s %s with only %s" % (k, p["via"], p["name"]))
    elif name.startswith("ann"):
        import implicit.als
        import implicit.approximate_als as A
        f = getattr(A, p["name"])
        base = dict(approximate_similar_items=True, approximate_recommend=True)
        base.update({"AnnoyAlternatingLeastSquares": dict(n_trees=50, search_k=-1), "NMSLibAlternatingLeastSquares": dict(method="hnsw"), "FaissAlternatingLeastSquares": dict(nlist=400, nprobe=20)}[p["name"]])
        if name == "ann":
            m = f(use_gpu=False)
            check(m, base, p["name"])
            check(m.model, DEFAULT["als"], p["name"])
            m = f(use_gpu=False, **ANN[p["name"]], **SETTINGS["als"])
            check(m, ANN[p["name"]], p["name"])
            check(m.model, SETTINGS["als"], p["name"])
        elif name == "ann_one":
            m = f(use_gpu=False, **{p["arg"]: ANN[p["name"]][p["arg"]]})
            check(m, dict(base, **{p["arg"]: ANN[p["name"]][p["arg"]]}), "%s with only %s" % (p["name"], p["arg"]))
        else:
            m = f(use_gpu=False, **{p["arg"]: SETTINGS["als"][p["arg"]]})
            check(m, base, p["name"])
            check(m.model, dict(DEFAULT["als"], **{p["arg"]: SETTINGS["als"][p["arg"]]}), "%s with only %s" % (p["name"], p["arg"]))
    elif name == "knn":
        import implicit.nearest_neighbours as nn
        for c in (nn.ItemItemRecommender, nn.CosineRecommender, nn.TFIDFRecommender):
            check(c(), dict(K=20, num_threads=0), c.__name__)
            check(c(5, 2), dict(K=5, num_threads=2), c.__name__)
            check(c(num_threads=2, K=5), dict(K=5, num_threads=2), c.__name__)
        check(nn.BM25Recommender(), dict(K=20, K1=1.2, B=.75, num_threads=0), "bm25")
        check(nn.BM25Recommender(5, 3.0, .1, 2), dict(K=5, K1=3.0, B=.1, num_threads=2), "bm25")
        check(nn.BM25Recommender(B=.1), dict(K=20, K1=1.2, B=.1, num_threads=0), "bm25")
    elif name == "forname":
        pass
