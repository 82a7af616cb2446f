"""C22: ALS training"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C22")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="fit", **kw):
        d = dict(seed=s(), users=9, items=8, f=3, dtype="float64", cg=False, native=True, reg=.5, alpha=1.0, iters=2, neg=.2, density=.4, nth=1, ddtype="float32", fmt="csr", preset="both", loss=False)
        d.update(kw)
        return (t, d)
    for cg in (False, True):
        for native in (True, False):
            for alpha in (1.0, 2.5, .4, 40.0):
                for iters in (0, 1, 2, 3):
                    yield mk(cg=cg, native=native, alpha=alpha, iters=iters)
            for preset in ("both", "user", "item", "none"):
                yield mk(cg=cg, native=native, preset=preset, loss=True)
            for dt in ("float32", "float64"):
                yield mk(cg=cg, native=native, dtype=dt, nth=3)
            yield mk("types", cg=cg, native=native)
            yield mk("types", cg=cg, native=native, alpha=3.0)
            yield mk("nan", cg=cg, native=native)
            yield mk("callback", cg=cg, native=native, loss=True, iters=4)
            yield mk("callback", cg=cg, native=native, loss=False, iters=3)
            yield mk("callback", cg=cg, native=native, loss=False, iters=3, attr=True)
            yield mk("callback", cg=cg, native=native, loss=True, iters=3, neg=1.0)
            # training that has converged (same loss, same factors) goes on to the last iteration
            yield mk("callback", cg=cg, native=native, loss=True, iters=60, users=2, items=2, f=1, density=1.0, reg=.2, dtype="float32")
            yield mk("callback", cg=cg, native=native, loss=True, iters=20, users=3, items=2, f=2, reg=50.0, neg=0.0)
            yield mk("refit", cg=cg, native=native)
    for b in ctx.bounds(2, 260):
        yield mk(users=b, nth=0)
        yield mk(items=b, nth=0)
        if b < 40:
            yield mk(iters=b, users=5, items=5, f=2)
    for _ in range(1500 if ctx.thorough else 80):
        yield mk(users=int(r.integers(1, 30)), items=int(r.integers(1, 30)), f=int(r.integers(1, 7)), cg=bool(r.random() < .5), native=bool(r.random() < .7), alpha=float(r.choice([1, 1.7, 10])),
                 iters=int(r.integers(0, 5)), neg=float(r.choice([0, .3])), density=float(r.choice([.1, .5, .9])), reg=float(r.choice([.1, 1])), preset=str(r.choice(["both", "user", "item", "none"])))


def sweep(C, X, Y, reg, cg, steps, native):
    """update X in place (float64)"""
    f = X.shape[1]
    G = Y.T @ Y + reg * np.eye(f)
    cond = 1.0
    for u in range(X.shape[0]):
        idx, dat = row_entries(C, u)
        A, b = G.copy(), np.zeros(f)
        for i, c in zip(idx, dat):
            A += (abs(c) - 1) * np.outer(Y[i], Y[i])
            if c > 0:
                b += c * Y[i]
        if len(idx) == 0 and (native or not cg):
            X[u] = 0
            continue
        if not cg:
            cond = max(cond, np.linalg.cond(A))
            X[u] = np.linalg.solve(A, b)
            continue
        x = X[u].copy()
        rr = b - A @ x
        pp = rr.copy()
        rs = rr @ rr
        if rs < 1e-20:
            continue
        for _ in range(steps):
            Ap = A @ pp
            a = rs / (pp @ Ap)
            x = x + a * pp
            rr = rr - a * Ap
            rn = rr @ rr
            if rn < 1e-20:
                break
            pp = rr + rn / rs * pp
            rs = rn
        X[u] = x
    return cond


def model(p, **kw):
    from implicit.cpu.als import AlternatingLeastSquares as ALS
    return ALS(factors=p["f"], regularization=p["reg"], alpha=p["alpha"], dtype=np.dtype(p["dtype"]), use_native=p["native"], use_cg=p["cg"], iterations=p["iters"],
               calculate_training_loss=p["loss"], num_threads=p["nth"], random_state=p["seed"] % 9973, **kw)


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    C = rand_csr(rng, p["users"], p["items"], p["density"], dtype=np.float32, negatives=p["neg"], ints=None)
    U, I = C.shape
    X, Y = real_factors(rng, U, p["f"], dt, 0), real_factors(rng, I, p["f"], dt, 0)
    if name == "nan":
        D = rand_csr(rng, U, I, .5, dtype=np.float32)
        if D.nnz == 0:
            return
        D.data[rng.integers(D.nnz)] = np.nan
        m = model(dict(p, iters=2))
        try:
            m.fit(D, show_progress=False)
        except Exception as e:  # noqa
            if p["cg"]:
                from implicit.cpu.matrix_factorization_base import ModelFitError
                need(isinstance(e, ModelFitError), "training on NaN raised %s", type(e).__name__)
            return
        raise Broken("training that produced %s returned silently" % ("NaN" if np.isnan(m.user_factors).any() or np.isnan(m.item_factors).any() else "a result from NaN input"))
    if name == "types":
        base = None
        one = C.copy()
        one.data[:] = np.round(np.abs(one.data))
        flat = one.copy()
        flat.data[:] = 1
        for M0, kinds in ((one, ("float32", "float64", "int32", "int64", "uint8", "coo", "csc")), (flat, ("float32", "bool", "int32"))):
            base = None
            for k in kinds:
                M = M0.asformat(k) if k in ("coo", "csc") else M0.astype(np.dtype(k))
                m = model(p)
                m.user_factors, m.item_factors = X.copy(), Y.copy()
                m.fit(M, show_progress=False)
                if base is None:
                    base = (m.user_factors, m.item_factors)
                else:
                    need(np.allclose(m.user_factors, base[0], rtol=1e-6, atol=1e-8) and np.allclose(m.item_factors, base[1], rtol=1e-6, atol=1e-8), "input given as %s gives other factors than float32 CSR", k)
        return
    calls = []
    m = model(p)
    if name == "refit":
        m.fit(C, show_progress=False)
        m2 = model(p)
        m2.user_factors, m2.item_factors = m.user_factors.copy(), m.item_factors.copy()
        m.fit(C, show_progress=False)
        m2.fit(C, show_progress=False)
        need(np.array_equal(m.user_factors, m2.user_factors) and np.array_equal(m.item_factors, m2.item_factors), "a second fit doesn't continue from the present factors")
        return
    if p.get("preset") in ("both", "user"):
        m.user_factors = X.copy()
    if p.get("preset") in ("both", "item"):
        m.item_factors = Y.copy()
    if p.get("preset") != "both" or p["iters"] == 0:
        z = model(dict(p, iters=0))
        z.user_factors = None if m.user_factors is None else m.user_factors.copy()
        z.item_factors = None if m.item_factors is None else m.item_factors.copy()
        z.fit(C, show_progress=False, callback=lambda *a: calls.append(a))
        need(not calls, "callbacks without iterations")
        for nm, a, pre, rows in (("user", z.user_factors, m.user_factors, U), ("item", z.item_factors, m.item_factors, I)):
            need(a.shape == (rows, p["f"]), "%s factors have shape %s", nm, a.shape)
            if pre is not None:
                need(np.array_equal(a, pre), "%s factors that were present are not the starting point", nm)
            else:
                need(a.dtype == dt, "%s factors have type %s", nm, a.dtype)
                need(bool(np.all((a >= 0) & (a <= .0101))), "%s factors don't start small", nm)
                need(a.size < 8 or len(np.unique(a)) > 3, "%s factors don't start random", nm)
        X, Y = z.user_factors.copy(), z.item_factors.copy()
        m.user_factors, m.item_factors = X.copy(), Y.copy()
    cb = lambda it, t, l: calls.append((it, l, m.user_factors.copy(), m.item_factors.copy()))
    if p.get("attr"):
        m.fit_callback = cb
        m.fit(C, show_progress=False)
    else:
        m.fit(C, show_progress=False, callback=cb)
    need([c[0] for c in calls] == list(range(p["iters"])), "callbacks for iterations %s of %d", [c[0] for c in calls], p["iters"])
    for it, l, _, _ in calls:
        need((l is not None) == p["loss"], "loss reported is %r", l)
    Ca = (C.astype(np.float32) * p["alpha"]).tocsr()
    Ct = Ca.T.tocsr()
    A, B = X.astype(np.float64), Y.astype(np.float64)
    tol = 1e-6 if dt == np.float64 else 5e-3
    for k in range(p["iters"]):
        c1 = sweep(Ca, A, B, p["reg"], p["cg"], m.cg_steps, p["native"])
        c2 = sweep(Ct, B, A, p["reg"], p["cg"], m.cg_steps, p["native"])
        if max(c1, c2) > 1e6:
            return
        tol *= 3
        for nm, a, b in (("user", A, calls[k][2]), ("item", B, calls[k][3])):
            s = max(1.0, float(np.abs(a).max()) if a.size else 1)
            need(bool(np.all(np.abs(a - b) <= tol * s)), "%s factors after iteration %d differ by %r from an exact sweep", nm, k, float(np.abs(a - b).max()))
        A, B = calls[k][2].astype(np.float64), calls[k][3].astype(np.float64)
        tol = 1e-6 if dt == np.float64 else 5e-3
    if p["iters"]:
        need(np.array_equal(m.user_factors, calls[-1][2]) and np.array_equal(m.item_factors, calls[-1][3]), "factors changed after the last iteration")
