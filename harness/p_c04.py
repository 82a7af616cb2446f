"""C04: batch rows equal scalar answers"""
import numpy as np
from core import *
from p_c02 import pick, knn_model


def cases(ctx):
    r = ctx.rng("C04")
    s = lambda: int(r.integers(1 << 30))

    def mk(t, **kw):
        d = dict(seed=s(), users=12, items=16, f=3, N=5, nq=6, filt=None, sel=None, liked=True, recalc=False, dtype="float64", nth=0, K=4, density=.25)
        d.update(kw)
        return (t, d)
    for nq in (1, 4, 30):
        for N in (1, 5, 14):
            for recalc in (True, False):
                yield mk("ann", nq=nq, N=N, recalc=recalc, filt=["list", None][int(r.integers(2))])
    for nq in [1, 2, 7, 99, 100, 101, 150, 200, 201, 250]:
        for t in ("mfrec", "mfsim_items", "mfsim_users"):
            for nth in (0, 1, 3):
                yield mk(t, nq=nq, nth=nth)
        yield mk("mfrec", nq=nq, sel="some")
        yield mk("mfrec", nq=nq, filt="list")
        yield mk("mfrec", nq=nq, recalc=True)
        yield mk("recalc_user", nq=nq)
        yield mk("recalc_item", nq=nq)
        yield mk("knnrec", nq=nq)
        yield mk("knnsim", nq=nq)
    for N in (1, 3, 16, 40):
        for t in ("knnrec", "knnsim"):
            for f, sel in ((None, None), ("list", None), (None, "some"), (None, "all")):
                yield mk(t, N=N, filt=f, sel=sel)
                yield mk(t, N=N, filt=f, sel=sel, liked=False, density=.5)
    for b in ctx.bounds(2, 2100):
        for t in ("mfrec", "knnrec", "mfsim_items", "recalc_user"):
            yield mk(t, nq=b)
        if b < 300:
            yield mk("knnrec", N=b)
            yield mk("knnsim", N=b)
            yield mk("mfrec", N=b, items=b + 1)
    for _ in range(1500 if ctx.thorough else 120):
        sel = [None, "some", "unsorted"][int(r.integers(3))]
        yield mk(str(r.choice(["mfrec", "mfsim_items", "mfsim_users", "recalc_user", "recalc_item", "knnrec", "knnsim"])),
                 users=int(r.integers(1, 30)), items=int(r.integers(2, 40)), f=int(r.integers(1, 6)), N=int(r.integers(1, 20)),
                 nq=int(r.integers(1, 330)), filt=None if sel else [None, "list", "int32"][int(r.integers(3))], sel=sel,
                 liked=bool(r.random() < .7), recalc=bool(r.random() < .3), dtype=str(r.choice(["float32", "float64"])),
                 nth=int(r.choice([0, 1, 2, 5])), K=int(r.integers(1, 10)))


def eq_rows(bi, bs, si, ss, what, tol):
    """equal up to rounding and the order of (nearly) equal scores"""
    need(len(bi) == len(si), "%s: %d vs %d results", what, len(bi), len(si))
    bs64, ss64 = np.asarray(bs, np.float64), np.asarray(ss, np.float64)
    fin = np.abs(ss64) < 1e30
    need(bool(np.all(np.abs(bs64[fin] - ss64[fin]) <= tol * np.maximum(1, np.abs(ss64[fin])))) and bool(np.all(np.abs(bs64[~fin]) >= 1e30)),
         "%s: scores %s vs scalar %s", what, bs64.tolist(), ss64.tolist())
    if np.array_equal(bi, si):
        return
    # order among ties (or at the boundary) may differ
    m = {int(i): float(v) for i, v in zip(si, ss64)}
    last = ss64[-1] if len(ss64) else 0
    for p, i in enumerate(bi):
        if int(i) in m:
            v = m[int(i)]
            ok = abs(v - bs64[p]) <= tol * max(1, abs(v)) or (abs(v) > 1e30 and abs(bs64[p]) > 1e30)
        else:
            ok = abs(bs64[p] - last) <= tol * max(1, abs(last)) or (abs(last) > 1e30)
        need(ok, "%s: ids %s vs scalar %s", what, list(bi), list(si))


def run(name, p):
    rng = prng(p)
    dt = np.dtype(p["dtype"])
    if name == "ann":
        from p_c21 import wrap, no_fit
        U, I, N = p["users"], p["items"], p["N"]
        m = no_fit(make_mf("als", real_factors(rng, U, p["f"], np.float32, 0), real_factors(rng, I, p["f"], np.float32, 0), num_threads=1))
        C = rand_csr(rng, U, I, p["density"])
        w = wrap("annoy", m)
        w.fit(C, show_progress=False)
        filt, _ = pick(rng, p["filt"], I)
        us, its = rng.integers(0, U, p["nq"]), rng.integers(0, I, p["nq"])
        rows = rand_csr(rng, p["nq"], I, .2)
        cols = rand_csr(rng, p["nq"], U, .5, empty_rows=0)
        for nm, bat, sca in (("recommend", lambda: w.recommend(us, rows, N=N, filter_items=filt), lambda k: w.recommend(us[k], rows[k], N=N, filter_items=filt)),
                             ("similar_items", lambda: w.similar_items(its, N=N, filter_items=filt, recalculate_item=p["recalc"], item_users=cols if p["recalc"] else None),
                              lambda k: w.similar_items(its[k], N=N, filter_items=filt, recalculate_item=p["recalc"], item_users=cols[k] if p["recalc"] else None))):
            a, b = bat()
            need(len(a) == len(b) == p["nq"], "annoy %s: %d rows for %d ids", nm, len(a), p["nq"])
            for k in range(p["nq"]):
                c, d = sca(k)
                c, d = np.asarray(c)[:N], np.asarray(d)[:N]
                short = N - len(c)
                c, d = np.append(c, np.full(short, -1)), np.append(d, np.full(short, -np.finfo(np.float32).max))
                eq_rows(a[k], b[k], c, d, "annoy %s row %d" % (nm, k), 1e-4)
        return
    if name.startswith("knn"):
        m, _ = knn_model(rng, p["users"] + 5, p["items"], p["K"], density=p["density"])
        filt, _ = pick(rng, p["filt"], p["items"])
        items, _ = pick(rng, p["sel"], p["items"])
        N = p["N"]
        if name == "knnrec":
            ui = rand_csr(rng, p["users"], p["items"], p["density"], dtype=dt)
            q = rng.integers(0, p["users"], size=p["nq"])
            kw = dict(N=N, filter_already_liked_items=p["liked"], filter_items=filt, items=items)
            bi, bs = m.recommend(q, ui[q], **kw)
            one = lambda r: m.recommend(int(q[r]), ui[int(q[r])], **kw)
        else:
            q = rng.integers(0, p["items"], size=p["nq"])
            bi, bs = m.similar_items(q, N=N, filter_items=filt, items=items)
            one = lambda r: m.similar_items(int(q[r]), N=N, filter_items=filt, items=items)
        need(bi.shape == (len(q), N) and bs.shape == bi.shape, "batch of %d ids with N=%d returned shape %s", len(q), N, bi.shape)
        rows = range(len(q)) if len(q) < 130 else sorted(set(rng.integers(0, len(q), 40).tolist()) | {0, len(q) - 1})
        for r in rows:
            si, ss = one(r)
            si, ss = si[:N], ss[:N]
            k = len(si)
            eq_rows(bi[r][:k], bs[r][:k], si, ss, "%s row %d" % (name, r), 1e-5)
            need(bool(np.all(bi[r][k:] == -1)) and bool(np.all(bs[r][k:] == finfo_min(np.float32))), "%s row %d: padding %s %s", name, r, bi[r], bs[r])
        return
    X, Y = int_factors(rng, p["users"], p["f"], dt), int_factors(rng, p["items"], p["f"], dt)
    m = make_mf("als", X, Y, num_threads=p["nth"], regularization=1.0)
    tol = 1e-4 if dt == np.float32 else 1e-8
    if name == "mfrec":
        ui = rand_csr(rng, p["users"], p["items"], p["density"])
        q = rng.integers(0, p["users"], size=p["nq"])
        filt, _ = pick(rng, p["filt"], p["items"])
        items, _ = pick(rng, p["sel"], p["items"])
        kw = dict(N=p["N"], filter_already_liked_items=p["liked"], filter_items=filt, items=items, recalculate_user=p["recalc"])
        bi, bs = m.recommend(q, ui[q], **kw)
        one = lambda r: m.recommend(int(q[r]), ui[int(q[r])], **kw)
        if p["recalc"] and dt == np.float32:
            tol = 5e-3
    elif name.startswith("mfsim"):
        n = p["items"] if name == "mfsim_items" else p["users"]
        q = rng.integers(0, n, size=p["nq"])
        filt, _ = pick(rng, p["filt"], n)
        items, _ = pick(rng, p["sel"], n)
        if name == "mfsim_items":
            f = lambda i: m.similar_items(i, N=p["N"], filter_items=filt, items=items)
        else:
            f = lambda i: m.similar_users(i, N=p["N"], filter_users=filt, users=items)
        bi, bs = f(q)
        one = lambda r: f(int(q[r]))
    else:
        a, b = (p["users"], p["items"]) if name == "recalc_user" else (p["items"], p["users"])
        C = rand_csr(rng, a, b, p["density"], negatives=.2)
        q = rng.integers(0, a, size=p["nq"])
        f = m.recalculate_user if name == "recalc_user" else m.recalculate_item
        F = f(q, C[q])
        need(F.shape == (len(q), p["f"]), "recalculated %d ids: shape %s", len(q), F.shape)
        for r in range(len(q)):
            g = f(int(q[r]), C[int(q[r])])
            need(g.shape == (p["f"],), "scalar recalculation has shape %s", g.shape)
            need(np.allclose(F[r], g, rtol=1e-3 if dt == np.float32 else 1e-8, atol=1e-3 if dt == np.float32 else 1e-8), "%s row %d: %s vs %s", name, r, F[r], g)
        return
    need(len(bi) == len(q) and len(bs) == len(q), "batch of %d ids returned %d rows", len(q), len(bi))
    rows = range(len(q)) if len(q) < 230 else sorted(set(rng.integers(0, len(q), 60).tolist()) | {0, len(q) - 1})
    for r in rows:
        si, ss = one(r)
        eq_rows(bi[r], bs[r], si, ss, "%s row %d" % (name, r), tol)
