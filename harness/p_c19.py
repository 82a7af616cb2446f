"""C19: explain"""
import numpy as np
from core import *


def cases(ctx):
    r = ctx.rng("C19")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), users=6, items=9, f=3, N=4, dtype="float64", reg=.5, alpha=1.0, neg=.3, density=.5, fmt="csr", ddtype="float32", empty=.15, hi=5)
        d.update(kw)
        return ("explain", d)
    for N in (1, 2, 3, 9, 30):
        for neg in (0, .4, 1.0):
            for alpha in (1.0, 2.5):
                yield mk(N=N, neg=neg, alpha=alpha)
    for dt in ("float32", "float64"):
        for dd in ("float32", "float64", "int32"):
            for fmt in ("csr", "coo", "csc"):
                yield mk(dtype=dt, ddtype=dd, fmt=fmt)
    for f in (1, 2, 8, 20):
        for reg in (.01, 1.0):
            yield mk(f=f, reg=reg)
    yield mk(density=1.0, N=3)
    yield mk(density=.1, empty=.6)
    for b in ctx.bounds(2, 300):
        yield mk(items=b)
        yield mk(N=b, items=60, density=.8)
    for _ in range(3000 if ctx.thorough else 200):
        yield mk(users=int(r.integers(1, 12)), items=int(r.integers(1, 30)), f=int(r.integers(1, 7)), N=int(r.integers(1, 25)), neg=float(r.choice([0, .4])), alpha=float(r.choice([1, .5, 4])), density=float(r.choice([.2, .6, 1.])), hi=int(r.choice([1, 5, 40])))


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    C = rand_csr(rng, p["users"], p["items"], p["density"], ints=None, dtype=np.dtype(p["ddtype"]), negatives=p["neg"], empty_rows=p["empty"], hi=p["hi"], sort=bool(rng.random() < .5))
    m = make_mf("als", real_factors(rng, p["users"], p["f"], dt), real_factors(rng, p["items"], p["f"], dt), num_threads=1, regularization=p["reg"], alpha=p["alpha"])
    Y = m.item_factors.astype(np.float64)
    b = (snapshot(C), model_state(m))
    M = C.asformat(p["fmt"])
    for u in range(p["users"]):
        idx, dat = row_entries(C, u)
        dat = dat.astype(np.float64) * p["alpha"]
        A = Y.T @ Y + p["reg"] * np.eye(p["f"])
        rhs = np.zeros(p["f"])
        for i, c in zip(idx, dat):
            A += (abs(c) - 1) * np.outer(Y[i], Y[i])
            if c > 0:
                rhs += c * Y[i]
        if np.linalg.eigvalsh(A).min() <= 1e-3 * np.abs(A).max():
            continue
        x = np.linalg.solve(A, rhs)
        Wm = np.linalg.inv(A)
        it = int(rng.integers(p["items"]))
        total, top, w = m.explain(u, M, it, N=p["N"])
        want = {int(i): float(c * (Y[it] @ Wm @ Y[i])) for i, c in zip(idx, dat) if c > 0}
        scale = max(1.0, max([abs(v) for v in want.values()] + [0.0]))
        tol = (5e-4 if dt == np.float32 else 1e-7) * scale * max(1, len(want)) ** .5
        need(abs(total - Y[it] @ x) <= tol * 3, "total score %r, predicted %r", total, float(Y[it] @ x))
        need(len(top) == min(p["N"], len(want)), "%d contributions, expected %d", len(top), min(p["N"], len(want)))
        ids = [int(t[0]) for t in top]
        need(len(set(ids)) == len(ids), "repeated items %s", ids)
        sc = [float(t[1]) for t in top]
        for i, v in zip(ids, sc):
            need(i in want, "item %d is not positively weighted for the user", i)
            need(abs(v - want[i]) <= tol, "contribution of %d is %r, expected %r", i, v, want[i])
        need(all(a >= c for a, c in zip(sc, sc[1:])), "contributions not in order %s", sc)
        rest = [v for i, v in want.items() if i not in ids]
        if rest and sc:
            need(max(rest) <= min(sc) + 2 * tol, "a larger contribution %r was left out (%s)", max(rest), sc)
        t2, top2, w2 = m.explain(u, M, it, user_weights=w, N=p["N"])
        need(abs(t2 - total) <= tol * 1e-3 and [a[0] for a in top2] == [a[0] for a in top] and np.allclose([a[1] for a in top2], sc, atol=tol), "passing the weights back gives another answer")
        it2 = int(rng.integers(p["items"]))
        t3, top3, _ = m.explain(u, M, it2, user_weights=w, N=p["N"])
        need(abs(t3 - Y[it2] @ x) <= tol * 3, "with weights passed back the total for item %d is %r, predicted %r", it2, t3, float(Y[it2] @ x))
    need(same(snapshot(C), b[0]) and same(model_state(m), b[1]), "explain changed its arguments or the model")
