"""C21: approximate search wrappers"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C21")
    s = lambda: int(r.integers(1 << 30))
    libs = ["annoy", "nmslib", "faiss"]

    def mk(t="query", **kw):
        d = dict(seed=s(), lib="annoy", base="als", users=8, items=25, f=4, N=5, nf=0, fkind="list", liked=.2, flag=True, q="scalar", dtype="float32", zero=0.0, mag=1.0)
        d.update(kw)
        return (t, d)
    for lib in libs:
        for q in ("scalar", "array"):
            for nf, fk in ((0, "none"), (3, "list"), (3, "array"), (1, "list")):
                for flag in (True, False):
                    yield mk(lib=lib, q=q, nf=nf, fkind=fk, flag=flag)
        for N in (1, 2, 8, 25, 40):
            yield mk(lib=lib, N=N)
        for base in ("als", "bpr", "lmf"):
            yield mk(lib=lib, base=base)
            yield mk("exact", lib=lib, base=base)
            yield mk("exact", lib=lib, base=base, q="array")
        yield mk(lib=lib, dtype="float64")
        yield mk(lib=lib, zero=.3)
        for mag in (1e-3, 30.0):
            yield mk(lib=lib, mag=mag)
            yield mk(lib=lib, mag=mag, q="array", flag=False)
        yield mk("exact", lib=lib, nf=2)
        yield mk("reject", lib=lib)
        yield mk("recalc", lib=lib)
    for _ in range(30):
        yield mk("augment", items=int(r.integers(1, 40)), f=int(r.integers(1, 8)), dtype=str(r.choice(["float32", "float64"])), zero=float(r.choice([0, .3])))
    for q in ("scalar", "array"):
        for _ in range(20):
            yield mk("filter", q=q, items=int(r.integers(4, 30)), nf=int(r.integers(0, 6)), N=int(r.integers(1, 6)))
    for _ in range(600 if ctx.thorough else 60):
        yield mk(lib=str(r.choice(libs)), items=int(r.integers(12, 50)), f=int(r.integers(2, 9)), N=int(r.integers(1, 12)), nf=int(r.integers(0, 7)), fkind=str(r.choice(["list", "array"])), liked=float(r.choice([0, .1, .4])), flag=bool(r.random() < .6), q=str(r.choice(["scalar", "array"])), base=str(r.choice(["als", "bpr", "lmf"])))


def wrap(lib, model, **kw):
    if lib == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(model, n_trees=30, **kw)
    if lib == "nmslib":
        from implicit.ann.nmslib import NMSLibModel
        return NMSLibModel(model, query_params={"ef": 200}, **kw)
    from implicit.ann.faiss import FaissModel
    return FaissModel(model, nlist=1, nprobe=1, **kw)


def no_fit(m):
    """keep the factors that are present (zero training steps)"""
    m.iterations = 0
    return m


def check(ids, scores, truth, banned, N, tol, what, want=None):
    ids, scores = np.asarray(ids), np.asarray(scores)
    need(ids.shape == scores.shape and ids.ndim == 1, "%s: shapes %s %s", what, ids.shape, scores.shape)
    keep = ids >= 0
    ids, scores = ids[keep], scores[keep]
    need(len(ids) <= N, "%s: %d results for N=%d", what, len(ids), N)
    need(len(set(ids.tolist())) == len(ids), "%s: repeated ids %s", what, ids.tolist())
    for i, sc in zip(ids.tolist(), scores.tolist()):
        need(0 <= i < len(truth), "%s: id %d", what, i)
        need(i not in banned, "%s: item %d was filtered out but is returned", what, i)
        need(np.isfinite(sc) and abs(sc - truth[i]) <= tol, "%s: score of %d is %r, the true one is %r", what, i, sc, float(truth[i]))
    need(bool(np.all(scores[:-1] >= scores[1:] - tol)), "%s: scores not in order %s", what, scores.tolist())
    if want is not None:
        need(len(ids) >= want, "%s: only %d results, %d items are eligible", what, len(ids), want)


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    N, I, U = p["N"], p["items"], p["users"]
    if name == "augment":
        from implicit.utils import augment_inner_product_matrix
        F = real_factors(rng, I, p["f"], dt, p["zero"])
        b = F.copy()
        mx, A = augment_inner_product_matrix(F)
        need(np.array_equal(F, b), "factors changed")
        need(A.shape == (I, p["f"] + 1), "shape %s", A.shape)
        n = np.linalg.norm(F.astype(np.float64), axis=1)
        need(abs(mx - n.max()) <= 1e-4 * max(1, n.max()), "norm %r, expected %r", mx, n.max())
        need(bool(np.all(np.abs(np.linalg.norm(A.astype(np.float64), axis=1) - n.max()) <= 2e-3 * max(1, n.max()))), "norms of the augmented rows differ: %s", np.linalg.norm(A, axis=1).tolist())
        q = rng.standard_normal(p["f"])
        need(np.allclose(A.astype(np.float64) @ np.append(q, 0), F.astype(np.float64) @ q, atol=1e-4), "inner products are not preserved")
        return
    if name == "filter":
        from implicit.utils import _filter_items_from_results
        fi = rng.permutation(I)[:p["nf"]]
        rows = 3
        cnt = min(I, N + p["nf"])
        ids = np.stack([rng.permutation(I)[:cnt] for _ in range(rows)])
        sc = np.sort(rng.random((rows, cnt)))[:, ::-1]
        if p["q"] == "scalar":
            a, b = _filter_items_from_results(0, ids[0], sc[0], fi, N)
            a, b = [a], [b]
        else:
            if any(sum(1 for x in ids[r] if x not in set(fi.tolist())) < N for r in range(rows)):
                return
            a, b = _filter_items_from_results(np.arange(rows), ids, sc, fi, N)
        for r in range(len(a)):
            w = [(i, s) for i, s in zip(ids[r], sc[r]) if i not in set(fi.tolist())][:N]
            need([int(x) for x in a[r]] == [int(x[0]) for x in w] and np.array_equal(np.asarray(b[r]), np.array([x[1] for x in w])), "filtered results are %s, expected %s", np.asarray(a[r]).tolist(), w)
        return
    X = real_factors(rng, U, p["f"] + 2, dt if p["base"] != "lmf" else np.float32, 0)
    Y = real_factors(rng, I, p["f"] + 2, dt if p["base"] != "lmf" else np.float32, p["zero"])
    X, Y = (X * p["mag"]).astype(X.dtype), (Y * p["mag"]).astype(Y.dtype)
    if p["base"] == "bpr":
        X[:, -1] = 1
    m = no_fit(make_mf(p["base"], X, Y, num_threads=1))
    C = rand_csr(rng, U, I, p["liked"], empty_rows=.2)
    apx = name in ("query", "reject", "recalc")
    w = wrap(p["lib"], m, approximate_similar_items=apx, approximate_recommend=apx)
    w.fit(C, show_progress=False)
    X, Y = m.user_factors.astype(np.float64), m.item_factors.astype(np.float64)
    fl = rng.permutation(I)[:p["nf"]]
    flt = None if p["fkind"] == "none" else (fl.tolist() if p["fkind"] == "list" else fl)
    banned = set(fl.tolist()) if flt is not None else set()
    before = snapshot([m.user_factors, m.item_factors, C, flt])
    if name == "reject":
        expect_raises(NotImplementedError, lambda: w.recommend(0, C[0], N=N, items=[0, 1]), "items list")
        expect_raises(NotImplementedError, lambda: w.similar_items(0, N=N, items=[0, 1]), "items list")
        return
    if name == "exact":
        u = 0 if p["q"] == "scalar" else np.arange(4)
        a, b = w.recommend(u, C[u], N=N, filter_items=flt), m.recommend(u, C[u], N=N, filter_items=flt)
        need(np.array_equal(a[0], b[0]) and np.allclose(a[1], b[1]), "recommend with the index disabled differs from the model")
        a, b = w.similar_items(u, N=N, filter_items=flt), m.similar_items(u, N=N, filter_items=flt)
        need(np.array_equal(a[0], b[0]) and np.allclose(a[1], b[1]), "similar_items with the index disabled differs from the model")
        a, b = w.recommend(u, C[u], N=N, filter_already_liked_items=False, items=[1, 3, 4]), m.recommend(u, C[u], N=N, filter_already_liked_items=False, items=[1, 3, 4])
        need(np.array_equal(a[0], b[0]) and np.allclose(a[1], b[1]), "recommend with an items list and the index disabled differs from the model")
        return
    cos = (Y @ Y.T) / np.outer(np.maximum(np.linalg.norm(Y, axis=1), 1e-10), np.maximum(np.linalg.norm(Y, axis=1), 1e-10))
    S = X @ Y.T
    ok = np.flatnonzero(np.linalg.norm(Y, axis=1) > 0)
    if name == "recalc":
        if p["base"] != "als":
            return
        iu = rand_csr(rng, I, U, .4, empty_rows=0)
        i = int(ok[0])
        f = m.recalculate_item(i, iu[i]).astype(np.float64)
        if np.linalg.norm(f) < 1e-6:
            return
        t = Y @ f / np.maximum(np.linalg.norm(Y, axis=1), 1e-10) / np.linalg.norm(f)
        a = w.similar_items(i, N=N, recalculate_item=True, item_users=iu[i])
        check(a[0], a[1], t, set(), N, 3e-3, "similar_items recalculating")
        return
    scale = np.linalg.norm(X, axis=1) * np.linalg.norm(Y, axis=1).max()
    nf = len(banned)
    if p["q"] == "scalar":
        for u in range(min(U, 4)):
            liked = set(row_entries(C, u)[0].tolist()) if p["flag"] else set()
            a = w.recommend(u, C[u], N=N, filter_already_liked_items=p["flag"], filter_items=flt)
            check(a[0], a[1], S[u], banned | liked, N, 3e-3 * scale[u], "%s recommend" % p["lib"], min(N, I - len(banned | liked)) if p["lib"] != "nmslib" else None)
        for i in ok[:4]:
            a = w.similar_items(int(i), N=N, filter_items=flt)
            check(a[0], a[1], cos[i], banned, N, 3e-3, "%s similar_items" % p["lib"], min(N, I - nf) if p["lib"] != "nmslib" else None)
    else:
        if N + nf > len(ok):
            return
        us = np.arange(min(U, 5))
        a = w.recommend(us, C[us], N=N, filter_already_liked_items=p["flag"], filter_items=flt)
        need(len(a[0]) == len(us), "%d rows for %d users", len(a[0]), len(us))
        for k, u in enumerate(us):
            liked = set(row_entries(C, u)[0].tolist()) if p["flag"] else set()
            check(a[0][k], a[1][k], S[u], banned | liked, N, 3e-3 * scale[u], "%s batch recommend row %d" % (p["lib"], k))
        its = ok[:5]
        a = w.similar_items(its, N=N, filter_items=flt)
        need(len(a[0]) == len(its), "%d rows for %d items", len(a[0]), len(its))
        for k, i in enumerate(its):
            check(a[0][k], a[1][k], cos[i], banned, N, 3e-3, "%s batch similar_items row %d" % (p["lib"], k))
    need(same(snapshot([m.user_factors, m.item_factors, C, flt]), before), "the factors or arguments were changed")
