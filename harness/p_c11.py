"""C11: item-item similarity matrix"""
import numpy as np
import scipy.sparse as sp
from core import *
from p_c13 import w_bm25, w_normalize, w_tfidf


def cases(ctx):
    r = ctx.rng("C11")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="knn", **kw):
        d = dict(seed=s(), users=9, items=8, K=3, density=.35, neg=0.0, nth=1, hi=5, fmt="csr", empty=.15)
        d.update(kw)
        return (t, d)
    for nth in (1, 0, 2, 4):
        for K in (1, 2, 3, 7, 8, 9, 30):
            yield mk(K=K, nth=nth)
            yield mk(K=K, nth=nth, neg=.4)
            yield mk(K=K, nth=nth, hi=1, items=20)
        for n in (1, 2, 8, 9, 17, 64, 65, 130, 257):
            yield mk(items=n, users=20, nth=nth, K=4)
    yield mk(density=0.0)
    yield mk(density=1.0)
    yield mk(empty=.9)
    for fmt in ("csr", "coo", "csc"):
        yield mk(fmt=fmt)
    for b in ctx.bounds(2, 1100):
        yield mk(items=b, users=12, density=min(.35, 6 / b + .02), nth=0)
        yield mk(users=b, items=9, nth=0)
        if b <= 300:
            yield mk(K=b, items=min(b + 3, 60))
    for t in ("cosine", "tfidf", "bm25"):
        for K in (1, 3, 20):
            for nth in (1, 0):
                for dd in ("float64", "float32", "int32"):
                    yield mk(t, K=K, nth=nth, items=12, users=14, ddtype=dd, K1=1.2, B=.75)
        yield mk(t, K=4, items=12, users=14, K1=3.0, B=.2)
    for _ in range(3000 if ctx.thorough else 200):
        yield mk(str(r.choice(["knn", "knn", "knn", "cosine", "tfidf", "bm25"])), users=int(r.integers(1, 40)), items=int(r.integers(1, 60)), K=int(r.integers(1, 25)),
                 density=float(r.choice([.05, .2, .6])), neg=float(r.choice([0, .3])), nth=int(r.choice([0, 1, 3])), hi=int(r.choice([1, 3, 9])), K1=float(r.choice([1.2, 5.])), B=float(r.choice([.75, 0.])))


def check_similarity(S, W, K, tol, what):
    """S: stored similarity; W: weighted user x item matrix (the exact products)"""
    n = W.shape[1]
    need(S.shape == (n, n), "%s: shape %s", what, S.shape)
    St = (W != 0) if not sp.issparse(W) else None
    W = sp.csr_matrix(W)
    D = W.toarray()
    T = np.zeros(D.shape, bool)
    for u in range(W.shape[0]):
        T[u, row_entries(W, u)[0]] = True
    P = D.T @ D
    touch = (T.T.astype(int) @ T.astype(int)) > 0
    Sd = sp.coo_matrix(S)
    got = [dict() for _ in range(n)]
    for i, j, v in zip(Sd.row, Sd.col, Sd.data):
        got[i][int(j)] = got[i].get(int(j), 0.0) + float(v)
    scale = max(1.0, np.abs(P).max()) if P.size else 1.0
    t = tol * scale
    for i in range(n):
        full = sorted([float(P[i, j]) for j in np.flatnonzero(touch[i])], reverse=True)
        top = full[:K]
        nz = {j: v for j, v in got[i].items() if v != 0}
        for j, v in nz.items():
            need(touch[i, j], "%s: item %d stores item %d although they share no user", what, i, j)
            need(abs(v - P[i, j]) <= t, "%s: similarity (%d,%d) is %r, expected %r", what, i, j, v, P[i, j])
        need(len(nz) <= min(K, len(full)), "%s: item %d stores %d items (K=%d, %d sharing)", what, i, len(nz), K, len(full))
        vals = sorted(nz.values(), reverse=True)
        want = [v for v in top if abs(v) > t]
        g2 = [v for v in vals if abs(v) > t]
        need(len(g2) == len(want) and all(abs(a - b) <= t for a, b in zip(g2, want)), "%s: item %d stores %s, expected %s", what, i, vals, top)


def run(name, p):
    rng = prng(p)
    W = rand_csr(rng, p["users"], p["items"], p["density"], dtype=np.float64, negatives=p["neg"] if name == "knn" else 0, empty_rows=p["empty"], hi=p["hi"], sort=bool(rng.random() < .5))
    import implicit.nearest_neighbours as nn
    if name == "knn":
        m = nn.ItemItemRecommender(K=p["K"], num_threads=p["nth"])
        m.fit(W.asformat(p["fmt"]), show_progress=False)
        check_similarity(m.similarity, W, p["K"], 0.0, "K=%d" % p["K"])
        from implicit._nearest_neighbours import all_pairs_knn
        check_similarity(all_pairs_knn(W, p["K"], num_threads=p["nth"], show_progress=False), W, p["K"], 0.0, "all_pairs_knn K=%d" % p["K"])
        return
    if W.nnz == 0:
        return
    C = W.astype(np.dtype(p.get("ddtype", "float64")))
    if name == "cosine":
        m = nn.CosineRecommender(K=p["K"], num_threads=p["nth"])
        X = w_normalize(W.T)
    elif name == "tfidf":
        m = nn.TFIDFRecommender(K=p["K"], num_threads=p["nth"])
        X = w_normalize(w_tfidf(W.T))
        if not np.all(np.isfinite(X.data)):
            return
    else:
        m = nn.BM25Recommender(K=p["K"], K1=p["K1"], B=p["B"], num_threads=p["nth"])
        X = w_bm25(W.T, p["K1"], p["B"])
    with np.errstate(all="ignore"):
        m.fit(C, show_progress=False)
    if not np.all(np.isfinite(X.data)):
        return
    check_similarity(m.similarity, X.T.tocsr(), p["K"], 1e-6 if C.dtype == np.float32 else 1e-9, name)
