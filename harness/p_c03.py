"""C03: exact cosine neighbours"""
import numpy as np
from core import *


def cases(ctx):
    r = ctx.rng("C03")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), t="items", n=15, f=3, dtype="float64", kind="int", q="array", nq=5, N=4, sel=None, cls="als", nth=1, zero=.2)
        d.update(kw)
        return ("cos", d)
    for t in ("items", "users"):
        for q in ("scalar", "array", "list", "npscalar"):
            for N in (1, 4, 15, 40):
                yield mk(t=t, q=q, N=N)
        for dt in ("float32", "float64"):
            for kind in ("int", "real", "ties", "tiny", "big"):
                for sel in (None, "some", "unsorted", "perm"):
                    yield mk(t=t, dtype=dt, kind=kind, sel=sel)
                    yield mk(t=t, dtype=dt, kind=kind, sel=sel, q="scalar")
        for nq in [99, 100, 101, 200, 202, 333]:
            for th in (0, 1, 3):
                yield mk(t=t, nq=nq, nth=th, n=30)
        yield mk(t=t, zero=1.0)
        yield mk(t=t, zero=.9, dtype="float32")
        for nq in ctx.bounds(2, 2100):
            yield mk(t=t, nq=nq, n=13, nth=0)
        for n in ctx.bounds(2, 1100):
            yield mk(t=t, n=n, nq=3, N=5)
        for f in ctx.bounds(2, 300):
            yield mk(t=t, f=f, kind="real")
    for q in ("scalar", "array"):
        for sel in (None, "some", "perm"):
            for dt in ("float32", "float64"):
                yield ("recalc", dict(seed=s(), q=q, sel=sel, dtype=dt, n=12, users=9, f=3, N=5))
    for _ in range(2500 if ctx.thorough else 200):
        if r.random() < .15:
            yield ("recalc", dict(seed=s(), q=str(r.choice(["scalar", "array"])), sel=[None, "some", "perm"][int(r.integers(3))],
                                  dtype=str(r.choice(["float32", "float64"])), n=int(r.integers(1, 40)), users=int(r.integers(1, 20)), f=int(r.integers(1, 6)), N=int(r.integers(1, 20))))
            continue
        yield mk(t=str(r.choice(["items", "users"])), n=int(r.integers(1, 90)), f=int(r.integers(1, 10)), dtype=str(r.choice(["float32", "float64"])),
                 kind=str(r.choice(["int", "real", "ties"])), q=str(r.choice(["scalar", "array"])), nq=int(r.integers(1, 260)),
                 N=int(r.integers(1, 30)), sel=[None, "some", "unsorted", "perm", "one"][int(r.integers(5))], cls=str(r.choice(["als", "bpr", "lmf"])),
                 nth=int(r.choice([0, 1, 2])), zero=float(r.choice([0, .2, .6])))


def cosines(Q, F):
    Q, F = Q.astype(np.float64), F.astype(np.float64)
    a = np.linalg.norm(Q, axis=1)
    b = np.linalg.norm(F, axis=1)
    D = Q @ F.T
    den = np.where(a == 0, 1, a)[:, None] * np.where(b == 0, 1, b)[None, :]
    return D / den


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    n = p["n"]
    if name == "cos":
        mkf = {"int": lambda: int_factors(rng, n, p["f"], dt, p["zero"]), "real": lambda: real_factors(rng, n, p["f"], dt, p["zero"]),
               "ties": lambda: int_factors(rng, n, p["f"], dt, p["zero"], hi=1), "tiny": lambda: real_factors(rng, n, p["f"], dt, p["zero"]) * dt.type(1e-5),
               "big": lambda: real_factors(rng, n, p["f"], dt, p["zero"]) * dt.type(1e6)}[p["kind"]]
        F = mkf()
        O = int_factors(rng, 4, p["f"], dt)
        m = make_mf(p["cls"], O if p["t"] == "items" else F, F if p["t"] == "items" else O, num_threads=p["nth"])
        C = cosines(F, F)
        q = rng.integers(0, n, size=p["nq"])
        sel = None
        if p["sel"]:
            sel = rng.permutation(n)[:{"perm": n, "one": 1}.get(p["sel"], max(1, n // 2))]
            sel = np.sort(sel) if p["sel"] == "some" else sel.tolist() if rng.random() < .5 else sel
        cand = set(range(n)) if sel is None else set(int(v) for v in sel)
        f = (lambda i: m.similar_items(i, N=p["N"], items=sel)) if p["t"] == "items" else (lambda i: m.similar_users(i, N=p["N"], users=sel))
        tol = 3e-5 if dt == np.float32 else 1e-9
        if p["q"] in ("scalar", "npscalar"):
            i = int(q[0])
            ids, sc = f(i if p["q"] == "scalar" else np.int64(i))
            check_topn(ids, sc, C[i], cand, p["N"], tol, "similar_%s(%d)" % (p["t"], i))
        else:
            ids, sc = f(q.tolist() if p["q"] == "list" else q)
            need(ids.shape[0] == len(q) and ids.shape == sc.shape, "shape %s", ids.shape)
            for r, i in enumerate(q):
                check_topn(ids[r], sc[r], C[i], cand, p["N"], tol, "similar_%s(ids)[%d] = %d" % (p["t"], r, i))
    else:
        X = real_factors(rng, p["users"], p["f"], dt)
        Y = real_factors(rng, n, p["f"], dt, .2)
        m = make_mf("als", X, Y, regularization=0.3)
        iu = rand_csr(rng, n, p["users"], .4, ints=None)
        q = rng.integers(0, n, size=5)
        sel = None if not p["sel"] else rng.permutation(n) if p["sel"] == "perm" else np.sort(rng.permutation(n)[:max(1, n // 2)])
        cand = set(range(n)) if sel is None else set(sel.tolist())
        if p["q"] == "scalar":
            q = q[:1]
            ids, sc = m.similar_items(int(q[0]), N=p["N"], recalculate_item=True, item_users=iu[int(q[0])], items=sel)
            ids, sc = ids[None], sc[None]
        else:
            ids, sc = m.similar_items(q, N=p["N"], recalculate_item=True, item_users=iu[q], items=sel)
        Q = np.stack([als_solve(iu, X, int(i), .3) for i in q])
        C = cosines(Q, Y)
        for r, i in enumerate(q):
            check_topn(ids[r], sc[r], C[r], cand, p["N"], 2e-3 if dt == np.float32 else 1e-6, "similar_items(%d, recalculated)" % i)


def als_solve(C, Y, u, reg):
    Y = Y.astype(np.float64)
    idx, dat = row_entries(C, u)
    if len(idx) == 0:
        return np.zeros(Y.shape[1])
    c = dat.astype(np.float32).astype(np.float64)
    A = Y.T @ Y + reg * np.eye(Y.shape[1])
    b = np.zeros(Y.shape[1])
    for i, v in zip(idx, c):
        A += (abs(v) - 1) * np.outer(Y[i], Y[i])
        if v > 0:
            b += v * Y[i]
    return np.linalg.solve(A, b)
