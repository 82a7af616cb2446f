"""C07: conjugate gradient update"""
import numpy as np
from core import *
from p_c06 import data


def cases(ctx):
    r = ctx.rng("C07")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), users=9, items=8, f=4, dtype="float64", impl="native", reg=.5, neg=.25, density=.4, nth=1, idx="int32", dups=0.0, ddtype="float32", steps=3, x0="rand")
        d.update(kw)
        return ("cg", d)
    for impl in ("native", "python"):
        for steps in (0, 1, 2, 3, 4, 5, 8):
            for dt in ("float32", "float64"):
                for neg in (0.0, .3):
                    yield mk(impl=impl, steps=steps, dtype=dt, neg=neg)
            yield mk(impl=impl, steps=steps, x0="zero")
            yield mk(impl=impl, steps=steps, x0="solution")
        for u in (1, 7, 8, 9, 17, 65, 130):
            for nth in (1, 0, 3):
                yield mk(impl=impl, users=u, nth=nth)
        for f in (1, 2, 7):
            for st in (1, 3, f, f + 3):
                yield mk(impl=impl, f=f, steps=st)
        yield mk(impl=impl, dups=.5)
        yield mk(impl=impl, idx="int64")
        yield mk(impl=impl, density=0.0)
        yield mk(impl=impl, density=1.0, neg=1.0)
        yield mk(impl=impl, items=1)
        yield mk(impl=impl, ddtype="float64")
        yield ("model", dict(seed=s(), impl=impl, steps=2, f=3))
    for b in ctx.bounds(2, 1100):
        yield mk(users=b, nth=0, f=2, steps=2)
        yield mk(items=b, f=2, density=min(.4, 20 / b))
        if b <= 130:
            yield mk(f=b, steps=2)
            yield mk(f=min(b + 1, 20), steps=b, dtype="float64")
    for _ in range(3000 if ctx.thorough else 150):
        yield mk(impl=str(r.choice(["native", "python"])), users=int(r.integers(1, 40)), items=int(r.integers(1, 40)), f=int(r.integers(1, 9)),
                 dtype=str(r.choice(["float32", "float64"])), reg=float(r.choice([.05, .5, 2.])), neg=float(r.choice([0, .3, .8])), steps=int(r.integers(0, 6)),
                 density=float(r.choice([.05, .3, .8])), nth=int(r.choice([0, 1, 2, 6])), dups=float(r.choice([0, .4])), x0=str(r.choice(["rand", "zero"])))


def system(C, Y, u, reg):
    Y = Y.astype(np.float64)
    A = Y.T @ Y + reg * np.eye(Y.shape[1])
    b = np.zeros(Y.shape[1])
    idx, dat = row_entries(C, u)
    for i, v in zip(idx, dat.astype(np.float32).astype(np.float64)):
        A += (abs(v) - 1) * np.outer(Y[i], Y[i])
        if v > 0:
            b += v * Y[i]
    return A, b


def cg(A, b, x, steps):
    x = x.astype(np.float64).copy()
    r = b - A @ x
    p = r.copy()
    rs = r @ r
    if rs < 1e-20:
        return x
    for _ in range(steps):
        Ap = A @ p
        a = rs / (p @ Ap)
        x = x + a * p
        r = r - a * Ap
        n = r @ r
        if n < 1e-20:
            break
        p = r + (n / rs) * p
        rs = n
    return x


def run(name, p):
    rng = prng(p)
    from implicit.cpu import _als
    import implicit.cpu.als as A
    if name == "model":
        C = rand_csr(rng, 12, 10, .4, ints=None, negatives=.2)
        X, Y = real_factors(rng, 12, p["f"], np.float64), real_factors(rng, 10, p["f"], np.float64)
        m = make_mf("als", X.copy(), Y.copy(), use_native=p["impl"] == "native", use_cg=True, regularization=.3)
        m.cg_steps = p["steps"]
        X2 = X.copy()
        m.solver(C, X2, Y, .3, num_threads=1)
        for u in range(12):
            if C.indptr[u] != C.indptr[u + 1]:
                w = cg(*system(C, Y, u, .3), X[u], p["steps"])
                need(np.allclose(X2[u], w, rtol=1e-6, atol=1e-6), "model solver row %d: %s, expected %s (%d steps)", u, X2[u], w, p["steps"])
        return
    dt = np.dtype(p["dtype"])
    f32 = dt == np.float32
    X0, Y = real_factors(rng, p["users"], p["f"], dt, .1), real_factors(rng, p["items"], p["f"], dt, .1)
    C = data(rng, p, p["users"], p["items"])
    if p["x0"] == "zero":
        X0[:] = 0
    elif p["x0"] == "solution":
        for u in range(p["users"]):
            a, b = system(C, Y, u, p["reg"])
            X0[u] = np.linalg.solve(a, b)
    X, Y0 = X0.copy(), Y.copy()
    f = _als.least_squares_cg if p["impl"] == "native" else A.least_squares_cg
    f(C, X, Y, p["reg"], num_threads=p["nth"], cg_steps=p["steps"])
    need(np.array_equal(Y, Y0), "the solver changed the fixed factors")
    for u in range(p["users"]):
        empty = C.indptr[u] == C.indptr[u + 1]
        if empty and p["impl"] == "native":
            need(bool(np.all(X[u] == 0)), "row %d has no interactions but is %s", u, X[u])
            continue
        a, b = system(C, Y, u, p["reg"])
        if np.linalg.cond(a) > 1e6 and p["steps"] > 1:
            continue
        # the native solver takes regularization as a float32
        w = cg(a, b, X0[u], p["steps"])
        w2 = np.linalg.solve(a, b)
        sc = max(1.0, np.abs(w).max())
        t = (2e-2 if f32 else 1e-5) * sc
        if f32 and np.linalg.cond(a) > 300:
            continue
        ok = bool(np.all(np.isfinite(X[u]))) and (np.abs(X[u] - w).max() <= t or (p["steps"] >= p["f"] and np.abs(X[u] - w2).max() <= t))
        if p["x0"] == "solution" and f32:
            ok = ok or np.abs(X[u] - w2).max() <= 5e-2 * sc
        need(ok, "row %d after %d CG steps (%s): %s, expected %s", u, p["steps"], p["impl"], X[u].tolist(), w.tolist())
