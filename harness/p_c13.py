"""C13: weightings"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C13")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), rows=8, cols=7, density=.4, fmt="coo", dtype="float64", K1=100, B=.8, shuffle=False, ints=True)
        d.update(kw)
        return ("weights", d)
    for fmt in ("csr", "csc", "coo", "lil", "dense"):
        for dt in ("float32", "float64", "int32", "int64"):
            yield mk(fmt=fmt, dtype=dt)
    for K1 in (0, 1.2, 3, 100):
        for B in (0, .3, .75, 1.0):
            yield mk(K1=K1, B=B)
            yield mk(K1=K1, B=B, rows=20, density=.1)
    yield mk(shuffle=True)
    for a, b in ((1, 5), (5, 1), (2, 2), (1, 1), (40, 3), (3, 40), (100, 101)):
        yield mk(rows=a, cols=b, density=.5)
    for x in ctx.bounds(2, 1100):
        yield mk(rows=x, cols=5)
        yield mk(rows=5, cols=x, density=min(.4, 20 / x))
    for t in ("cosine", "tfidf", "bm25"):
        for _ in range(6):
            yield ("model", dict(seed=s(), m=t, K1=float(r.choice([1.2, 5.])), B=float(r.choice([.75, .1]))))
    for _ in range(3000 if ctx.thorough else 250):
        yield mk(rows=int(r.integers(1, 50)), cols=int(r.integers(1, 50)), density=float(r.choice([.05, .2, .7])), fmt=str(r.choice(["csr", "csc", "coo"])),
                 dtype=str(r.choice(["float32", "float64"])), K1=float(r.choice([.5, 1.2, 100])), B=float(r.choice([0, .4, 1])), shuffle=bool(r.random() < .5), ints=bool(r.random() < .5))


def w_tfidf(X):
    X = sp.coo_matrix(X).astype(np.float64)
    N = X.shape[0]
    df = np.zeros(X.shape[1])
    for c in X.col:
        df[c] += 1
    data = [np.sqrt(v) * (np.log(N) - np.log(1 + df[c])) for v, c in zip(X.data, X.col)]
    return sp.coo_matrix((np.array(data, dtype=float), (X.row, X.col)), shape=X.shape)


def w_normalize(X):
    X = sp.coo_matrix(X).astype(np.float64)
    ss = np.zeros(X.shape[0])
    for v, r in zip(X.data, X.row):
        ss[r] += v * v
    with np.errstate(all="ignore"):
        data = [v / np.sqrt(ss[r]) for v, r in zip(X.data, X.row)]
    return sp.coo_matrix((np.array(data, dtype=float), (X.row, X.col)), shape=X.shape)


def w_bm25(X, K1, B):
    X = sp.coo_matrix(X).astype(np.float64)
    N = X.shape[0]
    df = np.zeros(X.shape[1])
    ln = np.zeros(N)
    for v, r, c in zip(X.data, X.row, X.col):
        df[c] += 1
        ln[r] += v
    avg = ln.sum() / N
    with np.errstate(all="ignore"):
        data = [v * (K1 + 1) / (K1 * (1 - B + B * ln[r] / avg) + v) * (np.log(N) - np.log(1 + df[c])) for v, r, c in zip(X.data, X.row, X.col)]
    return sp.coo_matrix((np.array(data, dtype=float), (X.row, X.col)), shape=X.shape)


def entries(M):
    M = sp.coo_matrix(M)
    return {(int(a), int(b)): float(v) for a, b, v in zip(M.row, M.col, M.data)}


def run(name, p):
    rng = prng(p)
    import implicit.nearest_neighbours as nn
    if name == "model":
        from p_c11 import check_similarity
        C = rand_csr(rng, 14, 9, .4, dtype=np.float64, empty_rows=.1)
        if p["m"] == "cosine":
            m, X = nn.CosineRecommender(K=30), w_normalize(C.T)
        elif p["m"] == "tfidf":
            m, X = nn.TFIDFRecommender(K=30), w_normalize(w_tfidf(C.T))
        else:
            m, X = nn.BM25Recommender(K=30, K1=p["K1"], B=p["B"]), w_bm25(C.T, p["K1"], p["B"])
        m.fit(C, show_progress=False)
        check_similarity(m.similarity, X.T.tocsr(), 30, 1e-9, p["m"])
        return
    X = rand_csr(rng, p["rows"], p["cols"], p["density"], dtype=np.dtype(p["dtype"]), ints=bool(p["ints"]) or p["dtype"].startswith("int"))
    if X.nnz == 0:
        return
    arg = X
    if p["fmt"] == "dense":
        arg = X.toarray()
    elif p["fmt"] != "csr":
        arg = X.asformat(p["fmt"])
    if p["shuffle"]:
        c = X.tocoo()
        o = rng.permutation(c.nnz)
        arg = sp.coo_matrix((c.data[o], (c.row[o], c.col[o])), shape=c.shape)
    t = 2e-5 if p["dtype"] == "float32" else 1e-9
    for nm, got, want in (("tfidf_weight", nn.tfidf_weight(arg), w_tfidf(X)), ("normalize", nn.normalize(arg), w_normalize(X)),
                          ("bm25_weight", nn.bm25_weight(arg, p["K1"], p["B"]), w_bm25(X, p["K1"], p["B"])), ("bm25_weight (default)", nn.bm25_weight(arg), w_bm25(X, 100, .8))):
        need(got.shape == X.shape, "%s: shape %s", nm, got.shape)
        g, w = entries(got), entries(want)
        need(sp.coo_matrix(got).nnz == X.nnz and g.keys() == w.keys(), "%s changed the sparsity structure", nm)
        for k in w:
            need((np.isnan(w[k]) and np.isnan(g[k])) or abs(g[k] - w[k]) <= t * max(1, abs(w[k])), "%s: entry %s is %r, expected %r", nm, k, g[k], w[k])
