"""C09: partial_fit frame, growth and cache coherence over histories"""
import numpy as np
from core import *
from p_c03 import als_solve

OPS = ["pfu", "pfi", "rec", "simi", "simu", "recu", "reci", "explain", "rec_recalc", "sim_recalc", "fit", "saveload"]


def cases(ctx):
    r = ctx.rng("C09")
    s = lambda: int(r.integers(1 << 30))
    # every query before and after every update
    for upd in ("pfu", "pfi", "fit"):
        for q in ("rec", "simi", "simu", "recu", "reci", "explain", "rec_recalc", "sim_recalc"):
            for dt in ("float32", "float64"):
                yield ("history", dict(seed=s(), ops=[q, upd, q], dtype=dt, alpha=1.0))
            yield ("history", dict(seed=s(), ops=[q, upd, upd, q, "pfu", q, "pfi", q], dtype="float64", alpha=2.0))
    for side in ("users", "items"):
        for ids in ("one", "perm", "new", "gap", "mixed", "list", "all"):
            for dt in ("float32", "float64"):
                for alpha in (1.0, 3.0):
                    yield ("frame", dict(seed=s(), side=side, ids=ids, dtype=dt, alpha=alpha))
    for m in ("bpr", "lmf", "als", "knn", "cosine", "bm25"):
        for _ in range(3):
            yield ("refit", dict(seed=s(), m=m))
    for b in ctx.bounds(2, 300):
        yield ("frame", dict(seed=s(), side="users", ids="gap", dtype="float32", alpha=1.0, gap=b))
        yield ("frame", dict(seed=s(), side="items", ids="perm", dtype="float64", alpha=1.0, n=b + 1))
    for _ in range(1500 if ctx.thorough else 90):
        n = int(r.integers(3, 14))
        yield ("history", dict(seed=s(), ops=[str(r.choice(OPS)) for _ in range(n)], dtype=str(r.choice(["float32", "float64"])), alpha=float(r.choice([1.0, 2.0]))))


def clone(m):
    """the same factors, no cached state"""
    import implicit.cpu.als as A
    c = A.AlternatingLeastSquares(factors=m.factors, regularization=m.regularization, alpha=m.alpha, dtype=m.dtype, iterations=m.iterations,
                                  num_threads=1, random_state=m.random_state, use_cg=m.use_cg)
    c.user_factors, c.item_factors = m.user_factors.copy(), m.item_factors.copy()
    return c


def cmp(a, b, what, dt):
    t = 2e-3 if dt == np.float32 else 1e-7
    for x, y in zip(a, b):
        x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
        need(x.shape == y.shape, "%s: shape %s vs %s", what, x.shape, y.shape)
        big = np.abs(y) > 1e30
        need(bool(np.all(np.abs(x[~big] - y[~big]) <= t * np.maximum(1, np.abs(y[~big])))) and bool(np.all(np.abs(x[big]) > 1e30)), "%s: %s, expected %s", what, x.tolist(), y.tolist())


def apply_frame(m, side, ids, C, what):
    """one partial_fit call against its contract"""
    dt = m.dtype
    own, other = ("user_factors", "item_factors") if side == "users" else ("item_factors", "user_factors")
    before, ob = getattr(m, own).copy(), getattr(m, other).copy()
    S = C.copy()
    S.data = C.data.astype(np.float64) * m.alpha
    want = np.stack([als_solve(S, ob, k, m.regularization) for k in range(C.shape[0])])
    (m.partial_fit_users if side == "users" else m.partial_fit_items)(ids, C)
    after = getattr(m, own)
    idl = [int(i) for i in ids]
    n = max(before.shape[0], max(idl) + 1)
    need(after.shape == (n, before.shape[1]), "%s: factors have shape %s, expected %s", what, after.shape, (n, before.shape[1]))
    need(after.dtype == before.dtype, "%s: dtype became %s", what, after.dtype)
    need(np.array_equal(getattr(m, other), ob), "%s changed the other side's factors", what)
    for i in range(n):
        if i in idl:
            w = want[idl.index(i)]
            t = (3e-3 if dt == np.float32 else 1e-7) * max(1, np.abs(w).max())
            need(np.abs(after[i] - w).max() <= t, "%s: row %d is %s, expected %s", what, i, after[i].tolist(), w.tolist())
        elif i < before.shape[0]:
            need(np.array_equal(after[i], before[i]), "%s: row %d was not given but changed", what, i)
        else:
            need(bool(np.all(after[i] == 0)), "%s: new row %d was not given but is %s", what, i, after[i].tolist())


def run(name, p):
    rng = prng(p)
    if name == "refit":
        import implicit.nearest_neighbours as nn
        from implicit.cpu.als import AlternatingLeastSquares as A
        from implicit.cpu.bpr import BayesianPersonalizedRanking as Bp
        from implicit.cpu.lmf import LogisticMatrixFactorization as L
        kw = dict(factors=3, random_state=1, num_threads=1, iterations=4)
        mkm = {"als": lambda: A(**kw), "bpr": lambda: Bp(learning_rate=.3, **kw), "lmf": lambda: L(**kw), "knn": lambda: nn.ItemItemRecommender(K=4),
               "cosine": lambda: nn.CosineRecommender(K=4), "bm25": lambda: nn.BM25Recommender(K=4)}[p["m"]]
        a, b = [rand_csr(rng, 12, 14, .3, dtype=np.float64 if p["m"] in ("knn", "cosine", "bm25") else np.float32, empty_rows=0) for _ in range(2)]
        m = mkm()
        m.fit(a, show_progress=False)
        qs = [lambda x: x.similar_items(3, N=14), lambda x: x.similar_items(np.array([1, 5, 3]), N=14)]
        if p["m"] in ("als", "bpr", "lmf"):
            qs += [lambda x: x.similar_users(2, N=12)]
        qs += [lambda x: x.recommend(2, b[2], N=14), lambda x: x.recommend(np.array([2, 4]), b[[2, 4]], N=14)]
        for q in qs:
            q(m)
        m.fit(b, show_progress=False)
        if p["m"] in ("als", "bpr", "lmf"):
            c = mkm()
            c.user_factors, c.item_factors = m.user_factors.copy(), m.item_factors.copy()
        else:
            c = mkm()
            c.fit(b, show_progress=False)
        for k, q in enumerate(qs):
            x, y = q(m), q(c)
            cmp([x[1]], [y[1]], "%s query %d after a refit" % (p["m"], k), np.float32)
        return
    dt = np.dtype(p["dtype"])
    U, I, F = 8, p.get("n", 10), 3
    m = make_mf("als", real_factors(rng, U, F, dt), real_factors(rng, I, F, dt), num_threads=1, regularization=.3, alpha=p["alpha"], random_state=3, iterations=1)
    if name == "frame":
        own = U if p["side"] == "users" else I
        oth = I if p["side"] == "users" else U
        g = p.get("gap", 4)
        ids = {"one": np.array([own // 2]), "perm": rng.permutation(own)[:max(1, own // 2)], "new": np.array([own]), "gap": np.array([own + g, 1 % own]),
               "mixed": np.array([own + 1, 0, own + 3, 2 % own if own > 2 else own + 7]), "list": [1 % own, own, 0 if own > 1 else own + 2], "tuple": (own + 1, 1 % own), "all": np.arange(own)}[p["ids"]]
        if len(set(int(i) for i in ids)) != len(ids):
            return
        C = rand_csr(rng, len(ids), oth, .5, ints=None, negatives=.2, empty_rows=.2)
        apply_frame(m, p["side"], ids, C, "partial_fit_%s(%s)" % (p["side"], list(ids)))
        return
    import tempfile, io
    ui_src = lambda: rand_csr(rng, m.user_factors.shape[0], m.item_factors.shape[0], .35, ints=None, negatives=.15)
    for k, op in enumerate(p["ops"]):
        what = "step %d of %s (%s)" % (k, p["ops"], op)
        U, I = m.user_factors.shape[0], m.item_factors.shape[0]
        if op in ("pfu", "pfi"):
            n, o = (U, I) if op == "pfu" else (I, U)
            ids = rng.permutation(n + 2)[:int(rng.integers(1, 4))]
            apply_frame(m, "users" if op == "pfu" else "items", ids, rand_csr(rng, len(ids), o, .5, ints=None, negatives=.2), what)
            continue
        C = ui_src()
        if op == "fit":
            c = clone(m)
            m.num_threads = 1
            m.fit(C, show_progress=False)
            c.fit(C, show_progress=False)
            cmp([m.user_factors, m.item_factors], [c.user_factors, c.item_factors], what, dt)
            continue
        if op == "saveload":
            b = io.BytesIO()
            m.save(b)
            b.seek(0)
            m = type(m).load(b)
            continue
        c = clone(m)
        u, i = int(rng.integers(U)), int(rng.integers(I))
        us, its = rng.integers(0, U, 3), rng.integers(0, I, 3)
        T = C.T.tocsr()
        f = {"rec": lambda x: x.recommend(us, C[us], N=6)[1:] + x.recommend(u, C[u], N=4)[1:],
             "simi": lambda x: x.similar_items(its, N=6)[1:] + x.similar_items(i, N=4)[1:],
             "simu": lambda x: x.similar_users(us, N=6)[1:] + x.similar_users(u, N=4)[1:],
             "recu": lambda x: (x.recalculate_user(us, C[us]), x.recalculate_user(u, C[u])),
             "reci": lambda x: (x.recalculate_item(its, T[its]), x.recalculate_item(i, T[i])),
             "explain": lambda x: (x.explain(u, C, i)[0], [s for _, s in x.explain(u, C, i)[1]]),
             "rec_recalc": lambda x: x.recommend(us, C[us], N=6, recalculate_user=True)[1:],
             "sim_recalc": lambda x: x.similar_items(its, N=6, recalculate_item=True, item_users=T[its])[1:]}[op]
        cmp(f(m), f(c), what, dt)
