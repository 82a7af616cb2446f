"""C02: filters are honoured, invalid selections rejected (factor and item-item models)"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C02")
    s = lambda: int(r.integers(1 << 30))

    def mf(**kw):
        d = dict(seed=s(), users=6, items=14, f=3, N=5, q="array", nq=4, liked=True, filt="list", sel=None,
                 density=0.3, dtype="float32", cls="als", nth=1)
        d.update(kw)
        return ("mf", d)

    def knn(**kw):
        d = dict(seed=s(), users=12, items=14, N=4, K=6, q="scalar", nq=4, liked=True, filt=None, sel=None,
                 density=0.3, neg=0.0, dtype="float64")
        d.update(kw)
        return ("knn", d)
    for q in ("scalar", "array"):
        for filt in (None, "list", "int32", "int64", "empty", "all", "dup", "tuple"):
            for liked in (True, False):
                for N in (1, 5, 14, 30):
                    yield mf(q=q, filt=filt, liked=liked, N=N)
        for sel in ("some", "unsorted", "array", "all", "perm", "one"):
            for liked in (True, False):
                for N in (1, 3, 20):
                    yield mf(q=q, filt=None, sel=sel, liked=liked, N=N)
    for nq in [99, 100, 101, 205, 300] + ctx.bounds(2, 2100):
        yield mf(users=min(nq, 60), nq=nq, items=17, nth=0)
        yield mf(users=min(nq, 60), nq=nq, items=17, nth=0, filt=None, sel="some")
    for it in ctx.bounds(3, 2100):
        yield mf(items=it, N=3, nq=3, density=min(.3, 30 / it))
    for d in (0.0, 0.9, 1.0):
        yield mf(density=d)
        yield mf(density=d, filt=None, sel="some")
    for q in ("scalar", "array"):
        for filt in (None, "list", "int32", "empty", "many", "dup"):
            for liked in (True, False):
                for N in (1, 3, 20):
                    yield knn(q=q, filt=filt, liked=liked, N=N)
                    yield knn(q=q, filt=filt, liked=liked, N=N, neg=0.4)
        for sel in ("some", "array", "all", "perm", "one"):
            for liked in (True, False):
                for N in (1, 3, 20):
                    yield knn(q=q, filt=None, sel=sel, liked=liked, N=N)
    for b in ctx.bounds(2, 300):
        yield knn(items=b + 2, N=b, K=5, users=15)
        yield knn(items=30, N=3, K=b, filt="list")
    for t in ("similar_items", "similar_users"):
        for q in ("scalar", "array"):
            for filt in ("list", "int64", "all", "empty"):
                for N in (1, 6, 30):
                    yield ("mfsim", dict(seed=s(), t=t, q=q, filt=filt, sel=None, N=N, n=13, f=3, nq=4))
            for sel in ("some", "unsorted", "array", "perm"):
                for N in (1, 6, 30):
                    yield ("mfsim", dict(seed=s(), t=t, q=q, filt=None, sel=sel, N=N, n=13, f=3, nq=4))
    for q in ("scalar", "array"):
        for filt in (None, "list", "int32", "all"):
            for N in (1, 3, 20):
                yield ("knnsim", dict(seed=s(), q=q, filt=filt, sel=None, N=N, items=14, users=10, K=6))
        for sel in ("some", "array", "perm"):
            for N in (3, 20):
                yield ("knnsim", dict(seed=s(), q=q, filt=None, sel=sel, N=N, items=14, users=10, K=6))
    for i in range(6):
        yield ("reject", dict(seed=s()))
    for _ in range(3000 if ctx.thorough else 220):
        sel = [None, "some", "unsorted", "array", "perm", "one"][int(r.integers(6))]
        filt = None if sel else [None, "list", "int32", "int64", "dup", "all"][int(r.integers(6))]
        kw = dict(users=int(r.integers(1, 40)), items=int(r.integers(2, 60)), N=int(r.integers(1, 25)),
                  q=str(r.choice(["scalar", "array"])), nq=int(r.integers(1, 250)), liked=bool(r.random() < .75),
                  filt=filt, sel=sel, density=float(r.choice([.05, .3, .7])))
        if r.random() < .55:
            yield mf(cls=str(r.choice(["als", "bpr", "lmf"])), dtype=str(r.choice(["float32", "float64"])),
                     nth=int(r.choice([0, 1, 2])), f=int(r.integers(1, 8)), **kw)
        else:
            kw["nq"] = min(kw["nq"], 20)
            yield knn(K=int(r.integers(1, 20)), neg=float(r.choice([0, .3])), **kw)


def pick(rng, kind, n):
    some = rng.permutation(n)[:max(1, n // 3)].tolist()
    if kind is None:
        return None, set()
    v = {"list": some, "tuple": tuple(some), "int32": np.array(some, np.int32), "int64": np.array(some, np.int64),
         "empty": [], "all": list(range(n)), "dup": some + some, "many": rng.permutation(n)[:max(1, n - 2)].tolist(),
         "perm": rng.permutation(n).tolist(), "one": [int(rng.integers(n))], "some": sorted(some), "unsorted": some, "array": np.array(some)}[kind]
    return v, set(int(x) for x in v)


def check_masked(ids, scores, truth, elig, cand, N, tol, dtype, what):
    """factor models: top of eligible, then filler"""
    want = min(N, len(cand))
    need(len(ids) == want and len(scores) == want, "%s: %d results, expected %d", what, len(ids), want)
    k = min(N, len(elig))
    check_topn(ids[:k], scores[:k], truth, elig, N, tol, what)
    fill = set(ids[k:].tolist())
    need(len(fill) == want - k and fill <= (cand - elig), "%s: filler %s is not made of distinct excluded candidates", what, ids[k:].tolist())
    need(bool(np.all(scores[k:] == finfo_min(dtype))), "%s: excluded ids %s with scores %s", what, ids[k:].tolist(), scores[k:].tolist())


def run(name, p):
    rng = prng(p)
    if name == "mf":
        dt = np.dtype(p["dtype"])
        X, Y = int_factors(rng, p["users"], p["f"], dt), int_factors(rng, p["items"], p["f"], dt)
        m = make_mf(p["cls"], X, Y, num_threads=p["nth"])
        S = dense_scores(X, Y)
        ui = rand_csr(rng, p["users"], p["items"], p["density"], sort=bool(rng.random() < .5))
        users = rng.integers(0, p["users"], size=p["nq"])
        filt, fset = pick(rng, p["filt"], p["items"])
        items, sset = pick(rng, p["sel"], p["items"])
        cand = set(range(p["items"])) if items is None else sset
        kw = dict(N=p["N"], filter_already_liked_items=p["liked"], filter_items=filt, items=items)

        def elig(u):
            e = cand - fset
            if p["liked"]:
                e = e - set(row_entries(ui, u)[0].tolist())
            return e
        if p["q"] == "scalar":
            u = int(users[0])
            ids, sc = m.recommend(u, ui[u], **kw)
            check_masked(ids, sc, S[u], elig(u), cand, p["N"], 0, dt, "recommend(%d)" % u)
        else:
            ids, sc = m.recommend(users, ui[users], **kw)
            need(ids.shape[0] == len(users), "rows %s", ids.shape)
            for r, u in enumerate(users):
                check_masked(ids[r], sc[r], S[u], elig(u), cand, p["N"], 0, dt, "recommend(users)[%d]" % r)
    elif name == "mfsim":
        dt = np.float64
        F = int_factors(rng, p["n"], p["f"], dt)
        other = int_factors(rng, 3, p["f"], dt)
        m = make_mf("als", other if p["t"] == "similar_items" else F, F if p["t"] == "similar_items" else other)
        nrm = np.linalg.norm(F, axis=1)
        nrm[nrm == 0] = 1e-10
        C = (F @ F.T) / nrm[:, None] / nrm[None, :]
        filt, fset = pick(rng, p["filt"], p["n"])
        items, sset = pick(rng, p["sel"], p["n"])
        cand = set(range(p["n"])) if items is None else sset
        q = rng.integers(0, p["n"], size=p["nq"])
        if p["t"] == "similar_items":
            f = lambda i: m.similar_items(i, N=p["N"], filter_items=filt, items=items)
        else:
            f = lambda i: m.similar_users(i, N=p["N"], filter_users=filt, users=items)
        want = min(p["N"], len(cand))
        k = min(p["N"], len(cand - fset))
        got = [(int(q[0]), *f(int(q[0])))] if p["q"] == "scalar" else None
        if got is None:
            ids, sc = f(q)
            need(len(ids) == len(q), "rows %d for %d ids", len(ids), len(q))
            got = [(int(i), ids[r], sc[r]) for r, i in enumerate(q)]
        for i, ids, sc in got:
            need(len(ids) == want, "%s(%d): %d results expected %d", p["t"], i, len(ids), want)
            check_topn(ids[:k], sc[:k], C[i], cand - fset, p["N"], 1e-9, "%s(%d)" % (p["t"], i))
            need(set(ids[k:].tolist()) <= fset and len(set(ids[k:].tolist())) == want - k, "filler %s", ids[k:])
            need(bool(np.all(~(sc[k:] > -1e100))), "%s(%d): excluded ids %s have scores %s", p["t"], i, ids[k:].tolist(), sc[k:].tolist())
    elif name in ("knn", "knnsim"):
        knn_case(name, p, rng)
    else:
        reject(rng)


def knn_model(rng, users, items, K, neg=0.0, density=0.3):
    from implicit.nearest_neighbours import ItemItemRecommender
    W = rand_csr(rng, users, items, density, dtype=np.float64, negatives=neg)
    m = ItemItemRecommender(K=K, num_threads=1)
    m.fit(W, show_progress=False)
    return m, W


def knn_truth(m, ui, u):
    """touched item -> score, from the stored similarity"""
    sim = m.similarity
    out = {}
    idx, dat = row_entries(ui, u)
    for i, w in zip(idx, dat):
        for e in range(sim.indptr[i], sim.indptr[i + 1]):
            j = int(sim.indices[e])
            out[j] = out.get(j, 0.0) + float(sim.data[e]) * float(w)
    return out


def check_knn_row(ids, sc, truth, liked, fset, items, N, what, batch):
    """the statement for one user of an item-item model"""
    elig = {i: v for i, v in truth.items() if i not in liked and i not in fset}
    tol = 1e-4 * max([1.0] + [abs(v) for v in truth.values()]) if batch else 1e-9 * max([1.0] + [abs(v) for v in truth.values()])
    if items is None:
        if batch:
            keep = ids >= 0
            need(bool(np.all(~keep | (np.cumsum(~keep) == 0))), "%s: padding in the middle: %s", what, ids)
            need(len(ids) == N and bool(np.all(ids[~keep] == -1)) and bool(np.all(sc[~keep] == finfo_min(np.float32))), "%s: bad padding %s %s", what, ids, sc)
            ids, sc = ids[keep], sc[keep]
        check_topn(ids, sc, elig, set(elig), N, tol, what)
        return
    items = [int(i) for i in items]
    e2 = {i: v for i, v in elig.items() if i in set(items)}
    if batch:
        need(len(ids) == N, "%s: %d columns, N=%d", what, len(ids), N)
        want = min(N, len(items))
        need(bool(np.all(ids[want:] == -1)) and bool(np.all(sc[want:] == finfo_min(np.float32))), "%s: bad padding", what)
        ids, sc = ids[:want], sc[:want]
    else:
        want = len(items)
        need(len(ids) == want, "%s: %d results for %d selected items", what, len(ids), want)
    k = min(len(e2), len(ids))
    check_topn(ids[:k], sc[:k], e2, set(e2), len(ids), tol, what)
    rest = ids[k:].tolist()
    need(set(rest) <= set(items) - set(e2) and len(set(rest)) == len(rest), "%s: filler %s", what, rest)
    with np.errstate(over="ignore"):
        low = finfo_min(np.float32)
        need(bool(np.all(np.asarray(sc[k:], dtype=np.float64) <= low)), "%s: filler scores %s", what, sc[k:])


def knn_case(name, p, rng):
    m, _ = knn_model(rng, p["users"], p["items"], p["K"], p.get("neg", 0.0), p.get("density", .3))
    n = p["items"]
    filt, fset = pick(rng, p["filt"], n)
    items, sset = pick(rng, p["sel"], n)
    if name == "knn":
        ui = rand_csr(rng, p["users"], n, p["density"], dtype=np.dtype(p["dtype"]), negatives=p["neg"], sort=bool(rng.random() < .5))
        users = rng.integers(0, p["users"], size=p["nq"])
        kw = dict(N=p["N"], filter_already_liked_items=p["liked"], filter_items=filt, items=items)
        if p["q"] == "scalar":
            for u in users:
                u = int(u)
                ids, sc = m.recommend(u, ui[u], **kw)
                lk = set(row_entries(ui, u)[0].tolist()) if p["liked"] else set()
                check_knn_row(ids, sc, knn_truth(m, ui, u), lk, fset, items, p["N"], "knn recommend(%d)" % u, False)
        else:
            ids, sc = m.recommend(users, ui[users], **kw)
            need(ids.shape == (len(users), p["N"]) == sc.shape, "shape %s", ids.shape)
            for r, u in enumerate(users):
                lk = set(row_entries(ui, u)[0].tolist()) if p["liked"] else set()
                check_knn_row(ids[r], sc[r], knn_truth(m, ui, u), lk, fset, items, p["N"], "knn recommend(users)[%d]" % r, True)
        return
    sim = m.similarity
    q = rng.integers(0, n, size=4)
    if p["q"] == "scalar":
        rows = [(int(i), *m.similar_items(int(i), N=p["N"], filter_items=filt, items=items)) for i in q]
    else:
        ids, sc = m.similar_items(q, N=p["N"], filter_items=filt, items=items)
        need(ids.shape == (len(q), p["N"]), "shape %s", ids.shape)
        rows = []
        for r, i in enumerate(q):
            keep = ids[r] >= 0
            rows.append((int(i), ids[r][keep], sc[r][keep]))
    for i, ids, sc in rows:
        idx, dat = row_entries(sim, i)
        truth = {int(j): float(v) for j, v in zip(idx, dat) if int(j) not in fset}
        if items is not None:
            truth = {j: v for j, v in truth.items() if j in sset}
            k = min(len(truth), p["N"])
            need(len(ids) == min(p["N"], len(sset)), "similar_items(%d): %d results for items=%s", i, len(ids), items)
            check_topn(ids[:k], sc[:k], truth, set(truth), p["N"], 1e-4, "knn similar_items(%d)" % i)
            need(set(ids[k:].tolist()) <= sset - set(truth), "filler %s", ids[k:])
            continue
        check_topn(ids, sc, truth, set(truth), p["N"], 1e-4, "knn similar_items(%d)" % i)


def reject(rng):
    X, Y = int_factors(rng, 5, 3, np.float32), int_factors(rng, 8, 3, np.float32)
    ui = rand_csr(rng, 5, 8, .4)
    m, _ = knn_model(rng, 9, 8, 4)
    for mod, nm in ((make_mf("als", X, Y), "als"), (make_mf("bpr", X, Y), "bpr"), (m, "knn")):
        for bad in ([8], [0, 8], [-1], [2, -3], np.array([1, 100]), [8, 0]):
            for q in (1, np.array([1, 2])):
                rows = ui[1] if np.isscalar(q) else ui[q]
                for liked in (True, False):
                    expect_raises(IndexError, lambda: mod.recommend(q, rows, items=bad, filter_already_liked_items=liked), "%s recommend(items=%s)" % (nm, bad))
                if nm != "knn":
                    expect_raises(IndexError, lambda: mod.similar_items(q, items=bad), "%s similar_items(items=%s)" % (nm, bad))
                    ubad = [5 if b == 8 else b for b in bad]
                    expect_raises(IndexError, lambda: mod.similar_users(q, users=ubad), "%s similar_users(users=%s)" % (nm, ubad))
        for a, b in (([1, 2], [3]), (np.array([1, 2]), np.array([3, 4])), ([1], np.array([1])), (np.array([0]), [0]), (np.array([0]), np.array([0]))):
            for q in (1, np.array([1, 2])):
                rows = ui[1] if np.isscalar(q) else ui[q]
                expect_raises(ValueError, lambda: mod.recommend(q, rows, items=a, filter_items=b), "%s recommend both lists" % nm)
                expect_raises(ValueError, lambda: mod.similar_items(q, items=a, filter_items=b), "%s similar_items both lists" % nm)
                if nm != "knn":
                    expect_raises(ValueError, lambda: mod.similar_users(q, users=a, filter_users=b), "%s similar_users both lists" % nm)
    # rows of the interactions must match the queried users, and must be CSR
    for mod, nm in ((make_mf("als", X, Y), "als"), (m, "knn")):
        expect_raises(ValueError, lambda: mod.recommend(np.array([0, 1]), ui[0]), "%s row mismatch" % nm)
        expect_raises(ValueError, lambda: mod.recommend(np.array([0, 1]), ui[[0, 1, 2]]), "%s row mismatch" % nm)
        expect_raises(ValueError, lambda: mod.recommend(0, ui[0].tocoo()), "%s non-csr" % nm)
