"""C18: random state"""
import random
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C18")
    s = lambda: int(r.integers(1 << 30))
    WHAT = ("als", "als_direct", "als_python", "bpr", "bpr_noverify", "lmf", "tts", "lko", "lko_reserved", "crs")
    for w in WHAT:
        for kind in ("int", "gen", "rs", "npint"):
            yield ("repeat", dict(what=w, kind=kind, seed=s(), dtype="float32", users=14, items=12))
            yield ("repeat", dict(what=w, kind=kind, seed=s(), dtype="float64", users=30, items=9))
        yield ("repeat", dict(what=w, kind="int0", seed=0, dtype="float32", users=14, items=12))
        yield ("none", dict(what=w, seed=s(), users=14, items=12, dtype="float32"))
        yield ("differ", dict(what=w, seed=s(), users=20, items=15, dtype="float32"))
        yield ("advance", dict(what=w, seed=s(), users=20, items=15, dtype="float32"))
    for w in WHAT:
        for nth in (2, 3):
            yield ("global", dict(what=w, seed=s(), nth=nth, users=20, items=15, dtype="float32"))
    for nth in (2, 4, 0):
        for w in ("als", "als_direct"):
            yield ("threads", dict(what=w, seed=s(), nth=nth, users=40, items=35, dtype="float64"))
    for _ in range(400 if ctx.thorough else 30):
        yield ("repeat", dict(what=str(r.choice(WHAT)), kind=str(r.choice(["int", "gen", "rs"])), seed=s(), dtype=str(r.choice(["float32", "float64"])), users=int(r.integers(3, 60)), items=int(r.integers(3, 40))))


def state(kind, seed):
    seed = seed % 1000003
    return {"int": lambda: seed, "int0": lambda: 0, "npint": lambda: np.int64(seed), "gen": lambda: np.random.default_rng(seed), "rs": lambda: np.random.RandomState(seed), "none": lambda: None}[kind]()


def go(what, C, st, dtype, nth=1, show=False):
    from implicit.cpu.als import AlternatingLeastSquares as ALS
    from implicit.cpu.bpr import BayesianPersonalizedRanking as BPR
    from implicit.cpu.lmf import LogisticMatrixFactorization as LMF
    from implicit import evaluation as ev
    from implicit.utils import check_random_state
    dt = np.dtype(dtype)
    if what == "crs":
        g = check_random_state(st)
        return [g.random(4), g.integers(0, 1 << 30, size=3)]
    if what == "tts":
        a, b = ev.train_test_split(C, .6, random_state=st)
    elif what in ("lko", "lko_reserved"):
        a, b = ev.leave_k_out_split(C, K=2, train_only_size=0.3 if what == "lko_reserved" else 0.0, random_state=st)
    else:
        if what.startswith("als"):
            m = ALS(factors=4, dtype=dt, iterations=2, num_threads=nth, random_state=st, use_cg=what != "als_direct", use_native=what != "als_python")
        elif what.startswith("bpr"):
            m = BPR(factors=4, dtype=dt, iterations=3, num_threads=nth, random_state=st, verify_negative_samples=what == "bpr")
        else:
            m = LMF(factors=4, iterations=2, neg_prop=2, num_threads=nth, random_state=st)
        import io, contextlib
        with contextlib.redirect_stderr(io.StringIO()):
            m.fit(C, show_progress=show)
        return [m.user_factors, m.item_factors]
    return [a.toarray(), b.toarray()]


def eq(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def run(name, p):
    rng = prng(p)
    C = rand_csr(rng, p["users"], p["items"], .5, empty_rows=.1, hi=9)
    w, dt = p["what"], p["dtype"]
    if name == "repeat":
        k, sd = p["kind"], p["seed"]
        np.random.seed(1)
        random.seed(1)
        g0, r0 = np.random.get_state(), random.getstate()
        a = go(w, C, state(k, sd), dt)
        g1, r1 = np.random.get_state(), random.getstate()
        need(all(np.array_equal(x, y) for x, y in zip(g0, g1)), "%s changed numpy's global random state", w)
        need(r0 == r1, "%s changed the global random state of the random module", w)
        np.random.seed(12345)
        random.seed(999)
        np.random.random(7)
        go(w, C, state("int", sd + 17), dt)  # another call in between
        b = go(w, C, state(k, sd), dt)
        need(eq(a, b), "%s with the same %s random state gave different results", w, k)
        c = go(w, C, state(k, sd), dt, show=True)
        need(eq(a, c), "%s gave a different result when showing progress", w)
    elif name == "global":
        np.random.seed(1)
        random.seed(1)
        for st in (p["seed"] % 1000, None):
            g0, r0 = np.random.get_state(), random.getstate()
            go(w, C, st, dt, p["nth"])
            need(all(np.array_equal(x, y) for x, y in zip(g0, np.random.get_state())), "%s with %d threads changed numpy's global random state", w, p["nth"])
            need(r0 == random.getstate(), "%s with %d threads drew from the random module", w, p["nth"])
    elif name == "none":
        np.random.seed(3)
        g0 = np.random.get_state()
        a = go(w, C, None, dt)
        need(all(np.array_equal(x, y) for x, y in zip(g0, np.random.get_state())), "%s changed numpy's global random state", w)
        np.random.seed(3)
        random.seed(3)
        b = go(w, C, None, dt)
        np.random.seed(3)
        random.seed(3)
        c = go(w, C, None, dt)
        if w in ("als", "als_python", "bpr", "lmf", "crs"):
            need(not (eq(a, b) and eq(b, c)), "%s without a random state always gives the same result", w)
    elif name == "differ":
        base = [go(w, C, p["seed"] % 1000 + k, dt) for k in range(4)]
        need(not all(eq(base[0], b) for b in base[1:]), "%s gives the same result for every seed", w)
        for k in ("gen", "rs"):
            base = [go(w, C, state(k, p["seed"] + i), dt) for i in range(4)]
            need(not all(eq(base[0], b) for b in base[1:]), "%s gives the same result for every %s", w, k)
    elif name == "advance":
        # a generator that is passed twice continues its stream
        for k in ("gen", "rs"):
            g, h = state(k, p["seed"]), state(k, p["seed"])
            a = [go(w, C, g, dt) for _ in range(4)]
            b = [go(w, C, h, dt) for _ in range(4)]
            need(all(eq(x, y) for x, y in zip(a, b)), "%s: two %s in the same state gave different sequences of results", w, k)
            if k == "gen" or True:
                need(not all(eq(a[0], x) for x in a[1:]), "%s drew nothing from the %s passed in", w, k)
    else:
        a = go(w, C, p["seed"] % 1000, dt, 1)
        b = go(w, C, p["seed"] % 1000, dt, p["nth"])
        for x, y in zip(a, b):
            need(bool(np.allclose(x, y, rtol=1e-6, atol=1e-9)), "%s with %d threads differs from one thread by %r", w, p["nth"], float(np.abs(x - y).max()))
