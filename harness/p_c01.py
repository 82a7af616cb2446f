"""C01: factor-model recommendations are the exact top N"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C01")
    s = lambda: int(r.integers(1 << 30))
    base = dict(cls="als", users=7, items=9, f=3, dtype="float32", kind="int", nthreads=1, N=4, sel=None, q="scalar", nq=1)

    def mk(**kw):
        d = dict(base, seed=s())
        d.update(kw)
        return ("topn", d)
    for q in ("scalar", "npscalar", "list", "array"):
        for N in (1, 3, 9, 10, 40):
            yield mk(q=q, nq=5, N=N)
    for dt in ("float32", "float64"):
        for cls in ("als", "bpr", "lmf"):
            yield mk(cls=cls, dtype=dt, q="array", nq=6, kind="real", f=5)
    for nq in (99, 100, 101, 199, 200, 201, 350, 1001):
        for th in (0, 1, 3):
            yield mk(users=40, items=30, q="array", nq=nq, nthreads=th, N=7)
    for nq in ctx.bounds(2, 4500 if ctx.thorough else 2100):
        yield mk(users=17, items=12, q="array", nq=nq, nthreads=0, N=5)
        yield mk(users=17, items=12, q="array", nq=nq, nthreads=0, N=5, kind="real")
    for it in ctx.bounds(2, 4500 if ctx.thorough else 2100):
        yield mk(users=5, items=it, q="array", nq=3, N=6)
        yield mk(users=5, items=it, q="array", nq=3, N=6, kind="real")
        yield mk(users=5, items=min(it + 3, 3000), q="array", nq=3, N=it)
    for f in [1, 2] + ctx.bounds(2, 600):
        yield mk(f=f, q="array", nq=4, items=25)
        yield mk(f=f, q="array", nq=4, items=25, kind="real")
    for sel in ("one", "some", "all", "unsorted", "perm"):
        for q in ("scalar", "array"):
            for N in (1, 4, 50):
                yield mk(sel=sel, q=q, nq=5, N=N, items=20)
    yield mk(sel="some", q="array", nq=230, N=5, items=20, nthreads=2)
    yield mk(kind="ties", items=60, N=10, q="array", nq=20)
    yield mk(kind="zero", items=11, N=5, q="array", nq=3)
    yield mk(kind="neg", items=30, N=7, q="array", nq=3)
    yield mk(kind="huge", items=30, N=7, q="array", nq=3, dtype="float64")
    n = 4000 if ctx.thorough else 260
    for _ in range(n):
        q = str(r.choice(["scalar", "array", "list"]))
        yield mk(cls=str(r.choice(["als", "bpr", "lmf"])), users=int(r.integers(1, 60)), items=int(r.integers(1, 120)),
                 f=int(r.integers(1, 12)), dtype=str(r.choice(["float32", "float64"])),
                 kind=str(r.choice(["int", "real", "ties", "neg"])), nthreads=int(r.choice([0, 1, 2, 4])),
                 N=int(r.integers(1, 40)), sel=["perm", "some", "unsorted", "all"][int(r.integers(4))] if r.random() < .4 else None,
                 q=q, nq=int(r.integers(1, 320)))


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    k = p["kind"]
    if k == "int":
        X, Y = int_factors(rng, p["users"], p["f"], dt), int_factors(rng, p["items"], p["f"], dt)
    elif k == "real":
        X, Y = real_factors(rng, p["users"], p["f"], dt), real_factors(rng, p["items"], p["f"], dt)
    elif k == "ties":
        X, Y = int_factors(rng, p["users"], p["f"], dt, hi=1), int_factors(rng, p["items"], p["f"], dt, hi=1)
    elif k == "zero":
        X, Y = np.zeros((p["users"], p["f"]), dt), np.zeros((p["items"], p["f"]), dt)
    elif k == "neg":
        X = np.abs(int_factors(rng, p["users"], p["f"], dt)) + 1
        Y = -np.abs(int_factors(rng, p["items"], p["f"], dt)) - 1
    else:
        X, Y = real_factors(rng, p["users"], p["f"], dt) * 1e60, real_factors(rng, p["items"], p["f"], dt) * 1e60
    m = make_mf(p["cls"], X, Y, num_threads=p["nthreads"])
    S = dense_scores(X, Y)
    ids = rng.integers(0, p["users"], size=p["nq"])
    items = None
    if p["sel"]:
        n = p["items"]
        items = {"one": [int(rng.integers(n))], "some": sorted(rng.permutation(n)[:max(1, n // 3)].tolist()),
                 "all": list(range(n)), "perm": rng.permutation(n).tolist(), "unsorted": rng.permutation(n)[:max(1, n // 2)].tolist()}[p["sel"]]
        if rng.random() < .5:
            items = np.array(items)
    cand = set(range(p["items"])) if items is None else set(int(v) for v in items)
    tol = 0.0 if k in ("int", "ties", "zero", "neg") else tol_for(dt, np.abs(S).max() if S.size else 1)
    kw = dict(N=p["N"], filter_already_liked_items=False, items=items)
    if p["q"] in ("scalar", "npscalar"):
        u = int(ids[0])
        got, sc = m.recommend(u if p["q"] == "scalar" else np.int32(u), None, **kw)
        check_topn(got, sc, S[u], cand, p["N"], tol, "recommend(user=%d)" % u)
        return
    arg = ids.tolist() if p["q"] == "list" else ids
    got, sc = m.recommend(arg, None, **kw)
    need(got.shape == sc.shape and got.ndim == 2 and got.shape[0] == len(ids),
         "recommend of %d users returned shapes %s %s", len(ids), got.shape, sc.shape)
    for r_, u in enumerate(ids):
        check_topn(got[r_], sc[r_], S[u], cand, p["N"], tol, "recommend(users)[%d] (user %d)" % (r_, u))
