"""C06: exact ALS row update"""
import numpy as np
import scipy.sparse as sp
from core import *
from p_c03 import als_solve


def cases(ctx):
    r = ctx.rng("C06")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="solve", **kw):
        d = dict(seed=s(), users=9, items=8, f=3, dtype="float64", impl="native", reg=.5, neg=.25, density=.4, nth=1, idx="int32", dups=0.0, alpha=1.0, ddtype="float32", q="array")
        d.update(kw)
        return (t, d)
    for impl in ("native", "python"):
        for dt in ("float32", "float64"):
            for neg in (0.0, .3, 1.0):
                for f in (1, 2, 5, 8):
                    yield mk(impl=impl, dtype=dt, neg=neg, f=f)
        for u in (1, 7, 8, 9, 16, 17, 63, 65, 130):
            for nth in (1, 0, 3):
                yield mk(impl=impl, users=u, nth=nth)
        yield mk(impl=impl, dups=.5)
        yield mk(impl=impl, idx="int64")
        yield mk(impl=impl, density=0.0)
        yield mk(impl=impl, density=1.0)
        yield mk(impl=impl, items=1)
        for dd in ("float32", "float64", "int32"):
            yield mk(impl=impl, ddtype=dd)
        for reg in (.01, 3.0):
            yield mk(impl=impl, reg=reg)
    for b in ctx.bounds(2, 1100):
        yield mk(users=b, nth=0, f=2)
        yield mk(items=b, f=2, density=min(.4, 20 / b))
        yield mk(t="recalc", users=b, nth=0, f=2)
        if b <= 130:
            yield mk(f=b)
    for side in ("user", "item"):
        for q in ("scalar", "array"):
            for dt in ("float32", "float64"):
                for alpha in (1.0, 2.5, .5):
                    for dd in ("float32", "float64"):
                        yield mk(t="recalc", side=side, q=q, dtype=dt, alpha=alpha, ddtype=dd)
            yield mk(t="recalc", side=side, q=q, fmt="coo", alpha=2.0)
            yield mk(t="recalc", side=side, q=q, idx="int64")
    for impl in ("native", "python", "recalc"):
        for kind in ("zero", "neg"):
            yield ("singular", dict(seed=s(), impl=impl, kind=kind))
    for _ in range(3000 if ctx.thorough else 150):
        yield mk(t=str(r.choice(["solve", "recalc"])), side=str(r.choice(["user", "item"])), q=str(r.choice(["scalar", "array"])), impl=str(r.choice(["native", "python"])), users=int(r.integers(1, 40)), items=int(r.integers(1, 40)), f=int(r.integers(1, 9)),
                 dtype=str(r.choice(["float32", "float64"])), reg=float(r.choice([.05, .5, 2.])), neg=float(r.choice([0, .3, .8])),
                 density=float(r.choice([.05, .3, .8])), nth=int(r.choice([0, 1, 2, 6])), dups=float(r.choice([0, .4])), alpha=float(r.choice([1.0, 1.5])))


def close(a, b, dt, what, scale=1.0):
    t = (3e-3 if np.dtype(dt) == np.float32 else 1e-7)
    s = max(1.0, float(np.abs(b).max()) if b.size else 1.0)
    need(bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= t * s)), "%s: %s, expected %s", what, np.asarray(a).tolist(), np.asarray(b).tolist())


def data(rng, p, rows, cols):
    C = rand_csr(rng, rows, cols, p["density"], dtype=np.dtype(p["ddtype"]), negatives=p["neg"], idx_dtype=np.dtype(p["idx"]), dups=p["dups"], sort=bool(rng.random() < .7), ints=p["dups"] > 0 or p["ddtype"].startswith("int") or bool(rng.random() < .5))
    return C


def run(name, p):
    rng = prng(p)
    from implicit.cpu import _als
    import implicit.cpu.als as A
    if name == "singular":
        C = sp.csr_matrix(np.array([[1., 1.], [1., 0]], dtype=np.float32))
        Y = np.zeros((2, 2), np.float64)
        reg = 0.0 if p["kind"] == "zero" else -5.0
        if p["kind"] == "neg":
            if p["impl"] == "python":
                return
            Y[:] = np.eye(2) * .1
        X = np.ones((2, 2), np.float64)
        if p["impl"] == "recalc":
            m = make_mf("als", X, Y, regularization=reg)
            expect_raises(Exception, lambda: m.recalculate_user(np.array([0, 1]), C), "unsolvable system in recalculate_user")
        else:
            f = _als.least_squares if p["impl"] == "native" else A.least_squares
            expect_raises(Exception, lambda: f(C, X, Y, reg, num_threads=1), "unsolvable system")
        return
    dt = np.dtype(p["dtype"])
    X0, Y = real_factors(rng, p["users"], p["f"], dt, .1), real_factors(rng, p["items"], p["f"], dt, .1)
    if name == "solve":
        C = data(rng, p, p["users"], p["items"])
        X = X0.copy()
        Y0 = Y.copy()
        f = _als.least_squares if p["impl"] == "native" else A.least_squares
        f(C, X, Y, p["reg"], num_threads=p["nth"])
        need(np.array_equal(Y, Y0), "the solver changed the fixed factors")
        want = np.stack([als_solve(C, Y, u, p["reg"]) for u in range(p["users"])])
        if p["impl"] == "python":
            # rows without interactions solve the same equations with b=0
            pass
        for u in range(p["users"]):
            close(X[u], want[u], dt, "row %d of %s least_squares" % (u, p["impl"]))
        for u in range(p["users"]):
            if C.indptr[u] == C.indptr[u + 1] and p["impl"] == "native":
                need(bool(np.all(X[u] == 0)), "row %d has no interactions but is %s", u, X[u])
        return
    m = make_mf("als", X0, Y, num_threads=p["nth"], regularization=p["reg"], alpha=p["alpha"])
    user = p.get("side", "user") == "user"
    rows, cols, F = (p["users"], p["items"], Y) if user else (p["items"], p["users"], X0)
    C = data(rng, p, rows, cols)
    q = rng.integers(0, rows, size=min(rows, 40))
    f = m.recalculate_user if user else m.recalculate_item
    scaled = C.copy()
    if p["alpha"] != 1.0:
        scaled.data = C.data.astype(np.float64) * p["alpha"]
    if p["q"] == "scalar":
        q = q[:1]
        arg = C[int(q[0])]
        got = f(int(q[0]), arg.tocoo() if p.get("fmt") == "coo" else arg)
        need(got.shape == (p["f"],), "scalar recalculation has shape %s", got.shape)
        got = got[None]
    else:
        arg = C[q]
        got = f(q, arg.tocoo() if p.get("fmt") == "coo" else arg)
    need(got.dtype == dt, "recalculated factors have dtype %s", got.dtype)
    need(got.shape == (len(q), p["f"]), "shape %s", got.shape)
    for r, u in enumerate(q):
        close(got[r], als_solve(scaled, F, int(u), p["reg"]), dt, "recalculated row for id %d (alpha=%s)" % (u, p["alpha"]))
    need(m.user_factors is X0 and m.item_factors is Y, "recalculation stored factors")
