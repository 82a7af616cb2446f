"""C12: item-item recommendations over histories of calls"""
import threading
import numpy as np
import scipy.sparse as sp
from core import *
from p_c02 import check_knn_row, knn_truth, pick


def cases(ctx):
    r = ctx.rng("C12")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), users=10, items=12, K=5, ncalls=8, neg=0.0, density=.3, dups=0.0, dtype="float64", N=5, simneg=.0)
        d.update(kw)
        return ("calls", d)
    for dt in ("float32", "float64"):
        for N in (1, 3, 12, 30):
            for neg in (0.0, .4):
                yield mk(dtype=dt, N=N, neg=neg)
                yield mk(dtype=dt, N=N, neg=neg, simneg=.4, dups=.5)
    yield mk(density=0.0)
    yield mk(density=1.0)
    yield mk(K=1)
    yield mk(items=1, N=1)
    for b in ctx.bounds(2, 1100):
        yield mk(items=b, N=4, density=min(.3, 8 / b), ncalls=4)
        if b < 200:
            yield mk(items=b + 2, N=b, density=.3, ncalls=4, K=min(b + 2, 50))
            yield mk(users=b, items=10, ncalls=5, K=b)
    yield ("threads", dict(seed=s(), items=60, users=40))
    for _ in range(1500 if ctx.thorough else 150):
        yield mk(items=int(r.integers(1, 50)), users=int(r.integers(1, 30)), K=int(r.integers(1, 15)), N=int(r.integers(1, 20)), neg=float(r.choice([0, .3])),
                 density=float(r.choice([.05, .3, .7])), dups=float(r.choice([0, .5])), dtype=str(r.choice(["float32", "float64"])), simneg=float(r.choice([0, .3])), ncalls=6)


def build(rng, p):
    import implicit.nearest_neighbours as nn
    W = rand_csr(rng, p["users"], p["items"], p.get("density", .3), dtype=np.float64, negatives=p.get("simneg", 0))
    m = nn.ItemItemRecommender(K=p.get("K", 5), num_threads=1)
    m.fit(W, show_progress=False)
    return m


def run(name, p):
    rng = prng(p)
    m = build(rng, p)
    sim0 = snapshot(m.similarity)
    n = p["items"]
    if name == "threads":
        ui = rand_csr(rng, p["users"], n, .2, dtype=np.float64, empty_rows=0)
        want = {u: m.recommend(u, ui[u], N=6) for u in range(p["users"])}
        bad = []

        def work(k):
            for u in range(k, p["users"], 3):
                for _ in range(3):
                    a, b = m.recommend(u, ui[u], N=6)
                    if not np.allclose(b, want[u][1]):
                        bad.append(u)
        ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        need(not bad, "concurrent recommend calls gave different scores for users %s", bad)
        return
    ui = rand_csr(rng, p["users"], n, p["density"], dtype=np.dtype(p["dtype"]), negatives=p["neg"], dups=p["dups"], sort=bool(rng.random() < .5))
    for c in range(p["ncalls"]):
        u = int(rng.integers(p["users"]))
        kind = str(rng.choice(["rec", "rec", "nolike", "filter", "items", "batch", "sim", "simbatch"]))
        N = p["N"]
        liked = set(row_entries(ui, u)[0].tolist())
        what = "call %d (%s, user %d)" % (c, kind, u)
        if kind == "rec":
            ids, sc = m.recommend(u, ui[u], N=N)
            check_knn_row(ids, sc, knn_truth(m, ui, u), liked, set(), None, N, what, False)
        elif kind == "nolike":
            ids, sc = m.recommend(u, ui[u], N=N, filter_already_liked_items=False)
            check_knn_row(ids, sc, knn_truth(m, ui, u), set(), set(), None, N, what, False)
        elif kind == "filter":
            f, fs = pick(rng, "list", n)
            ids, sc = m.recommend(u, ui[u], N=N, filter_items=f)
            check_knn_row(ids, sc, knn_truth(m, ui, u), liked, fs, None, N, what, False)
        elif kind == "items":
            f, fs = pick(rng, "array", n)
            ids, sc = m.recommend(u, ui[u], N=N, items=f)
            check_knn_row(ids, sc, knn_truth(m, ui, u), liked, set(), f, N, what, False)
        elif kind == "batch":
            us = rng.integers(0, p["users"], 4)
            ids, sc = m.recommend(us, ui[us], N=N)
            for r, v in enumerate(us):
                check_knn_row(ids[r], sc[r], knn_truth(m, ui, int(v)), set(row_entries(ui, int(v))[0].tolist()), set(), None, N, what + " row %d" % r, True)
        else:
            i = int(rng.integers(n))
            if kind == "sim":
                rows = [(i, *m.similar_items(i, N=N))]
            else:
                q = rng.integers(0, n, 3)
                a, b = m.similar_items(q, N=N)
                rows = [(int(x), a[r][a[r] >= 0], b[r][a[r] >= 0]) for r, x in enumerate(q)]
            for i, ids, sc in rows:
                idx, dat = row_entries(m.similarity, i)
                t = {int(j): float(v) for j, v in zip(idx, dat)}
                check_topn(ids, sc, t, set(t), N, 1e-4 if kind == "simbatch" else 1e-12, "similar_items(%d) in %s" % (i, what))
    need(same(snapshot(m.similarity), sim0), "queries changed the similarity matrix")
