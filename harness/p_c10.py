"""C10: persistence"""
import io
import os
import pickle
import shutil
import tempfile
import numpy as np
import scipy.sparse as sp
from core import *

MODELS = ("als", "bpr", "lmf", "item", "cosine", "tfidf", "bm25")
GRID = {
    "als": dict(factors=[3, 5], regularization=[.01, .3, 0.0], alpha=[1.0, 2.5, 40.0], dtype=["float32", "float64"], use_native=[True, False], use_cg=[True, False],
                iterations=[0, 1, 3], calculate_training_loss=[False, True], num_threads=[0, 1, 3], random_state=[None, 0, 7], _cg_steps=[3, 1, 5]),
    "bpr": dict(factors=[3, 5], learning_rate=[.01, .2], regularization=[.01, 0.0, .3], dtype=["float32", "float64"], iterations=[0, 1, 4], num_threads=[1], verify_negative_samples=[True, False], random_state=[None, 0, 7]),
    "lmf": dict(factors=[3, 5], learning_rate=[1.0, .2], regularization=[.6, 0.0], dtype=["float32"], iterations=[0, 1, 4], neg_prop=[30, 1, 5], num_threads=[1], random_state=[None, 0, 7]),
    "item": dict(K=[20, 2, 7], num_threads=[0, 1, 2]), "cosine": dict(K=[20, 2], num_threads=[0, 2]), "tfidf": dict(K=[20, 3], num_threads=[0, 2]),
    "bm25": dict(K=[20, 3], K1=[1.2, 100.0, 3], B=[.75, 0.0, .3], num_threads=[0, 2]),
}


def cases(ctx):
    r = ctx.rng("C10")
    s = lambda: int(r.integers(1 << 30))

    def params(m, fn):
        return {k: fn(v) for k, v in GRID[m].items()}
    ways = ("path", "path_npz", "bytes", "pickle")
    for m in MODELS:
        for way in ways:
            for fitted in (True, False):
                yield ("rt", dict(seed=s(), m=m, way=way, fitted=fitted, hp=params(m, lambda v: v[0])))
        # every hyper-parameter moved off its default
        for k, vals in GRID[m].items():
            for v in vals[1:]:
                hp = params(m, lambda x: x[0])
                hp[k] = v
                for way in ("path_npz", "pickle") if not ctx.thorough else ways:
                    yield ("rt", dict(seed=s(), m=m, way=way, fitted=True, hp=hp))
                yield ("rt", dict(seed=s(), m=m, way="bytes", fitted=False, hp=hp))
    for _ in range(600 if ctx.thorough else 60):
        m = str(r.choice(MODELS))
        yield ("rt", dict(seed=s(), m=m, way=str(r.choice(ways)), fitted=bool(r.random() < .8), hp=params(m, lambda v: v[int(r.integers(len(v)))])))


def make(p):
    import implicit.nearest_neighbours as nn
    from implicit.cpu.als import AlternatingLeastSquares as A
    from implicit.cpu.bpr import BayesianPersonalizedRanking as Bp
    from implicit.cpu.lmf import LogisticMatrixFactorization as L
    cls = {"als": A, "bpr": Bp, "lmf": L, "item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender, "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}[p["m"]]
    hp = {k: v for k, v in p["hp"].items() if not k.startswith("_")}
    if "dtype" in hp:
        hp["dtype"] = np.dtype(hp["dtype"])
    m = cls(**hp)
    for k, v in p["hp"].items():
        if k.startswith("_"):
            setattr(m, k[1:], v)
    return m


def values(m):
    return {k: v for k, v in vars(m).items() if k not in CACHES + ("fit_callback",)}


def roundtrip(m, way, d):
    if way == "pickle":
        return pickle.loads(pickle.dumps(m))
    if way == "bytes":
        b = io.BytesIO()
        m.save(b)
        b.seek(0)
        return type(m).load(b)
    p = os.path.join(d, "model" + (".npz" if way == "path_npz" else ""))
    m.save(p)
    return type(m).load(p)


def run(name, p):
    rng = prng(p)
    m = make(p)
    knn = p["m"] in ("item", "cosine", "tfidf", "bm25")
    C = rand_csr(rng, 14, 11, .35, dtype=np.float64 if knn else np.float32, empty_rows=.1)
    if p["fitted"]:
        m.fit(C, show_progress=False)
        if not knn:
            m.similar_items(1)
    d = tempfile.mkdtemp(prefix="verif_c10_")
    try:
        before = snapshot(values(m))
        l = roundtrip(m, p["way"], d)
        need(same(snapshot(values(m)), before), "saving changed the model")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    need(type(l) is type(m), "loaded a %s from a %s", type(l), type(m))
    a, b = values(m), values(l)
    for k in a:
        need(k in b, "attribute %s is lost", k)
        need(same(snapshot(a[k]), snapshot(b[k])), "%s was %r (%s), loaded %r (%s)", k, a[k], type(a[k]).__name__, b[k], type(b[k]).__name__)
    for k in b:
        need(k in a, "attribute %s appeared", k)
    if not p["fitted"]:
        if p["m"] != "als" or True:
            x, y = m, l
            if p["hp"].get("random_state", 0) is not None:
                x.fit(C, show_progress=False)
                y.fit(C, show_progress=False)
                need(same(snapshot(values(x)), snapshot(values(y))) or close_vals(x, y), "fitting the loaded unfitted model differs")
        return
    ui = C
    q = np.array([1, 3, 3, 0])
    qs = [lambda x: x.recommend(2, ui[2], N=5), lambda x: x.recommend(q, ui[q], N=4), lambda x: x.similar_items(1, N=5), lambda x: x.similar_items(q, N=4), lambda x: x.recommend(2, ui[2], filter_items=[1, 2], N=3)]
    if not knn:
        qs += [lambda x: x.similar_users(1, N=5)]
    if p["m"] == "als":
        qs += [lambda x: x.recommend(2, ui[2], N=5, recalculate_user=True), lambda x: (np.array([x.explain(2, ui, 3)[0]]), np.array(x.explain(2, ui, 3)[1]))]
    for k, f in enumerate(qs):
        x, y = f(m), f(l)
        for u, v in zip(x, y):
            need(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=False), "query %d: loaded model answers %s, original %s", k, v, u)
    rs = p["hp"].get("random_state", 0)
    if rs is not None:
        m.fit(C, show_progress=False)
        l.fit(C, show_progress=False)
        need(same(snapshot(values(m)), snapshot(values(l))) or close_vals(m, l), "continued training differs after loading")


def close_vals(x, y):
    a, b = values(x), values(y)
    if a.keys() != b.keys():
        return False
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-4, atol=1e-5):
                return False
        elif sp.issparse(a[k]):
            if not np.allclose(a[k].toarray(), b[k].toarray(), rtol=1e-6, atol=1e-9):
                return False
        elif not same(snapshot(a[k]), snapshot(b[k])):
            return False
    return True
