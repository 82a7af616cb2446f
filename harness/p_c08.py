"""C08: loss"""
import numpy as np
from core import *


def cases(ctx):
    r = ctx.rng("C08")
    s = lambda: int(r.integers(1 << 30))

    def mk(**kw):
        d = dict(seed=s(), users=9, items=8, f=3, dtype="float64", reg=.5, neg=.3, density=.4, nth=1, idx="int32", ddtype="float32")
        d.update(kw)
        return ("loss", d)
    for dt in ("float32", "float64"):
        for neg in (0, .3, 1.0):
            for nth in (0, 1, 2, 5):
                yield mk(dtype=dt, neg=neg, nth=nth)
        for u, i in ((1, 1), (1, 30), (30, 1), (8, 9), (17, 65), (100, 101), (250, 3)):
            for reg in (0.0, .5, 7.0):
                yield mk(dtype=dt, users=u, items=i, reg=reg, nth=0)
        yield mk(dtype=dt, density=0.0)
        yield mk(dtype=dt, density=1.0)
        yield mk(dtype=dt, idx="int64")
        yield mk(dtype=dt, ddtype="float64")
    for b in ctx.bounds(2, 1100):
        yield mk(users=b, nth=0)
        yield mk(items=b, nth=0, density=min(.4, 20 / b))
        if b < 200:
            yield mk(f=b)
    for i in range(4):
        yield ("fit", dict(seed=s(), cg=bool(i % 2), alpha=[1.0, 3.0][i // 2]))
    for _ in range(3000 if ctx.thorough else 200):
        yield mk(users=int(r.integers(1, 60)), items=int(r.integers(1, 60)), f=int(r.integers(1, 10)), dtype=str(r.choice(["float32", "float64"])),
                 reg=float(r.choice([0, .1, 2])), neg=float(r.choice([0, .3, .8])), density=float(r.choice([.05, .3, .8])), nth=int(r.choice([0, 1, 3])))


def loss(C, X, Y, reg):
    X, Y = X.astype(np.float64), Y.astype(np.float64)
    D = C.astype(np.float32).astype(np.float64).toarray()
    stored = np.zeros(D.shape, bool)
    for u in range(D.shape[0]):
        stored[u, row_entries(C, u)[0]] = True
    conf = np.where(stored, np.abs(D), 1.0)
    pref = (D > 0).astype(float)
    return ((conf * (pref - X @ Y.T) ** 2).sum() + reg * ((X ** 2).sum() + (Y ** 2).sum())) / conf.sum()


def run(name, p):
    rng = prng(p)
    from implicit.cpu import _als
    import implicit.cpu.als as A
    if name == "fit":
        C = rand_csr(rng, 15, 12, .3, negatives=.2)
        seen = []
        m = A.AlternatingLeastSquares(factors=3, regularization=.4, alpha=p["alpha"], dtype=np.float64, use_cg=p["cg"], iterations=3, calculate_training_loss=True, num_threads=2, random_state=4)
        m.fit(C, show_progress=False, callback=lambda it, t, l: seen.append((it, l, m.user_factors.copy(), m.item_factors.copy())))
        need([x[0] for x in seen] == [0, 1, 2], "callbacks %s", [x[0] for x in seen])
        for it, l, X, Y in seen:
            w = loss(C * p["alpha"], X, Y, .4)
            need(abs(l - w) <= 1e-5 * max(1, abs(w)), "loss reported at iteration %d: %r, expected %r", it, l, w)
        return
    dt = np.dtype(p["dtype"])
    X, Y = real_factors(rng, p["users"], p["f"], dt), real_factors(rng, p["items"], p["f"], dt)
    C = rand_csr(rng, p["users"], p["items"], p["density"], negatives=p["neg"], dtype=np.dtype(p["ddtype"]), idx_dtype=np.dtype(p["idx"]), ints=False, sort=bool(rng.random() < .6))
    b = snapshot([X, Y, C])
    w = loss(C, X, Y, p["reg"])
    for f in (_als.calculate_loss, A.calculate_loss):
        got = f(C, X, Y, p["reg"], num_threads=p["nth"])
        t = 3e-5 if dt == np.float32 else 1e-6
        need(np.isfinite(got) and abs(got - w) <= t * max(1, abs(w)), "loss %r, expected %r", got, w)
    need(same(snapshot([X, Y, C]), b), "calculating the loss changed its arguments")
