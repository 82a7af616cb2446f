"""C16: BPR training steps"""
import itertools
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C16")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="stream", **kw):
        d = dict(seed=s(), users=7, items=8, f=3, lr=.1, reg=.05, verify=True, density=.4, iters=1, dtype="float64", fmt="csr", idx="int32", sort=True, ddtype="float32", empty=.15)
        d.update(kw)
        return (t, d)
    # every outcome of the draws is enumerated: independent of the random stream
    for verify in (True, False):
        for nnz in (1, 2, 3):
            for f in (1, 3):
                for _ in range(4):
                    yield mk("enum", nnz=nnz, f=f, verify=verify, users=3, items=4, lr=float(r.choice([.05, .3])), reg=float(r.choice([0, .2])))
    for k in (1, 2, 3, 5, 9):
        for nth in (1, 2):
            yield ("reach", dict(seed=s(), n=k, nth=nth))
    for verify in (True, False):
        for dt in ("float32", "float64"):
            for f in (1, 2, 5, 16):
                yield mk(verify=verify, dtype=dt, f=f)
                yield mk(verify=verify, dtype=dt, f=f, sort=False, iters=2)
        for idx in ("int32", "int64"):
            for fmt in ("csr", "coo"):
                yield mk(verify=verify, idx=idx, fmt=fmt)
        for dd in ("float32", "float64", "int32"):
            yield mk(verify=verify, ddtype=dd, iters=3)
        yield mk(verify=verify, density=1.0, empty=0.0)
        yield mk(verify=verify, reg=0.0, lr=.5)
        yield mk(verify=verify, users=40, items=30, iters=3)
    for b in ctx.bounds(2, 600):
        yield mk(users=b, items=9, lr=.05)
        yield mk(items=b, users=9, lr=.05)
        if b <= 130:
            yield mk(f=b, lr=.02)
    for t in ("init", "frame"):
        for nth in (1, 3):
            for dt in ("float32", "float64"):
                yield mk(t, nth=nth, dtype=dt, iters=5, empty=.4)
                yield mk(t, nth=nth, dtype=dt, iters=5, empty=.4, verify=False, users=25, items=40, density=.1)
    for _ in range(2000 if ctx.thorough else 100):
        yield mk(users=int(r.integers(1, 40)), items=int(r.integers(1, 40)), f=int(r.integers(1, 12)), lr=float(r.choice([.01, .1, .4])), reg=float(r.choice([0, .01, .3])),
                 verify=bool(r.random() < .5), density=float(r.choice([.1, .4, .9])), iters=int(r.integers(1, 4)), sort=bool(r.random() < .5), empty=float(r.choice([0, .3])))


class Stream:
    """std::mt19937 + std::uniform_int_distribution<long>(0, n-1) of libstdc++"""

    def __init__(self, seed, n):
        self.g = np.random.MT19937()
        self.g._legacy_seeding(int(seed) & 0xFFFFFFFF)
        self.n = n

    def raw(self):
        return int(self.g.random_raw())

    def __call__(self):
        n = self.n
        prod = self.raw() * n
        low = prod & 0xFFFFFFFF
        if low < n:
            th = ((1 << 32) - n) % n
            while low < th:
                prod = self.raw() * n
                low = prod & 0xFFFFFFFF
        return prod >> 32


def step(X, Y, u, i, j, lr, reg, order=0):
    """one SGD step on copies of the rows; order only matters when i == j"""
    f = X.shape[1] - 1
    xu = X[u].copy()
    score = float(xu @ (Y[i] - Y[j]))
    z = 1.0 / (1.0 + np.exp(score))
    yi, yj = Y[i].copy(), Y[j].copy()
    X[u, :f] = xu[:f] + lr * (z * (yi[:f] - yj[:f]) - reg * xu[:f])
    gu = np.append(xu[:f], 1.0)
    if i != j:
        Y[i] = yi + lr * (z * gu - reg * yi)
        Y[j] = yj + lr * (-z * gu - reg * yj)
    else:
        a, b = (z * gu, -z * gu) if order == 0 else (-z * gu, z * gu)
        if order == 2:
            Y[i] = yi - 2 * lr * reg * yi
        else:
            Y[i] = Y[i] + lr * (a - reg * Y[i])
            Y[i] = Y[i] + lr * (b - reg * Y[i])
    return score > 0


def fit(p, C, X, Y, nth=1, cb=None):
    from implicit.cpu.bpr import BayesianPersonalizedRanking as M
    m = M(factors=p["f"], learning_rate=p["lr"], regularization=p["reg"], dtype=np.dtype(p["dtype"]), iterations=p["iters"], num_threads=nth,
          verify_negative_samples=p["verify"], random_state=p["seed"] % 100003)
    if X is not None:
        m.user_factors, m.item_factors = X.copy(), Y.copy()
    m.fit(C, show_progress=False, callback=cb)
    return m


_cal = {}


def calibrated():
    """does the stream oracle describe how this build draws? decided on tiny cases only"""
    if "ok" not in _cal:
        ok = 0
        for seed in range(6):
            p = dict(seed=seed, f=2, lr=.1, reg=.1, dtype="float64", iters=1, verify=False)
            rng = np.random.default_rng(seed)
            C = sp.csr_matrix((np.ones(3, np.float32), ([0, 1, 1], [0, 1, 2])), shape=(2, 3))
            X, Y = rng.standard_normal((2, 3)), rng.standard_normal((3, 3))
            X[:, -1] = 1
            m = fit(p, C, X, Y)
            W = stream_oracle(p, C, X, Y)
            ok += any(np.allclose(m.user_factors, a, atol=1e-6) and np.allclose(m.item_factors, b, atol=1e-6) for a, b, _, _ in W)
        _cal["ok"] = ok == 6
    return _cal["ok"]


def stream_oracle(p, C, X, Y):
    seeds = np.random.default_rng(p["seed"] % 100003).integers(0, 2**31, size=1, dtype="long")
    uid = np.repeat(np.arange(C.shape[0]), np.diff(C.indptr))
    lr, reg = float(np.float32(p["lr"])), float(np.float32(p["reg"]))
    out = []
    likes = [set(row_entries(C, u)[0].tolist()) for u in range(C.shape[0])]
    for order in (0, 1, 2):
        g = Stream(int(seeds[0]), C.nnz)
        A, B = X.astype(np.float64), Y.astype(np.float64)
        cs, ss = [], []
        amb = False
        for _ in range(p["iters"]):
            c = s = 0
            for _ in range(C.nnz):
                a, b = g(), g()
                u, i, j = uid[a], C.indices[a], C.indices[b]
                if p["verify"] and int(j) in likes[u]:
                    s += 1
                    continue
                amb |= i == j
                c += step(A, B, u, i, j, lr, reg, order)
            cs.append(c)
            ss.append(s)
        out.append((A, B, cs, ss))
        if not amb:
            break
    return out


def run(name, p):
    rng = prng(p)
    if name == "reach":
        # likes (k, k): with step size zero but for regularization every drawn user and item shrinks; 400 draws of n likes leave one
        # out with probability (1 - 1/n)^400 < 1e-20
        n = p["n"]
        C = sp.csr_matrix((np.ones(n, np.float32), (np.arange(n), np.arange(n))), shape=(n, n))
        X, Y = real_factors(rng, n, 3, np.float32, 0), real_factors(rng, n, 3, np.float32, 0)
        X[:, -1] = 1
        q = dict(p, f=2, lr=.05, reg=.1, dtype="float32", iters=400, verify=False)
        m = fit(q, C, X, Y, p["nth"])
        for who, a, b in (("user", X, m.user_factors), ("item", Y, m.item_factors)):
            same_ = [k for k in range(n) if np.array_equal(a[k], b[k])]
            need(not same_, "the likes of %s %s are never drawn (%d likes, %d draws)", who, same_, n, 400 * n)
        return
    dt = np.dtype(p["dtype"])
    if name == "enum":
        U, I = p["users"], p["items"]
        cells = rng.permutation(U * I)[:p["nnz"]]
        C = sp.csr_matrix((np.ones(len(cells), np.float32), (cells // I, cells % I)), shape=(U, I))
    else:
        C = rand_csr(rng, p["users"], p["items"], p["density"], dtype=np.dtype(p["ddtype"]), idx_dtype=np.dtype(p["idx"]), sort=p["sort"], empty_rows=p["empty"])
    U, I = C.shape
    X, Y = real_factors(rng, U, p["f"] + 1, dt, 0) * dt.type(.7), real_factors(rng, I, p["f"] + 1, dt, 0) * dt.type(.7)
    X[:, -1] = 1
    calls = []
    cb = lambda e, t, c, s: calls.append((e, c, s))
    noU, noI = np.diff(C.indptr) == 0, np.bincount(C.indices, minlength=I) == 0

    def frame(m, X, Y):
        need(np.array_equal(m.user_factors[noU], X[noU]), "factors of users without interactions were changed")
        need(np.array_equal(m.item_factors[noI], Y[noI]), "factors of items without interactions were changed")
        need(bool(np.all(m.user_factors[:, -1] == 1)), "the last column of the users isn't 1: %s", m.user_factors[:, -1].tolist())
        need(len(calls) == p["iters"], "%d callbacks for %d epochs", len(calls), p["iters"])
        need([c[0] for c in calls] == list(range(p["iters"])), "epochs %s", [c[0] for c in calls])

    if name == "init":
        p0 = dict(p, iters=0)
        m = fit(p0, C, None, None, p["nth"])
        X, Y = m.user_factors.copy(), m.item_factors.copy()
        need(X.shape == (U, p["f"] + 1) and Y.shape == (I, p["f"] + 1), "factor shapes %s %s", X.shape, Y.shape)
        need(X.dtype == dt and Y.dtype == dt, "factor types %s %s", X.dtype, Y.dtype)
        need(bool(np.all(X[noU][:, :-1] == 0)) and bool(np.all(Y[noI] == 0)), "users/items without interactions don't start at zero")
        need(bool(np.all(X[:, -1] == 1)), "the last column of the users doesn't start at 1")
        m = fit(p, C, None, None, p["nth"], cb)
        frame(m, X, Y)
        return
    m = fit(p, C.asformat(p["fmt"]), X, Y, p.get("nth", 1), cb)
    frame(m, X, Y)
    for e, c, s in calls:
        need(0 <= s <= C.nnz and 0 <= c <= C.nnz - s, "epoch %d reports %d correct and %d skipped of %d", e, c, s, C.nnz)
        if not p["verify"]:
            need(s == 0, "%d samples skipped although the check is off", s)
    tol = 2e-4 * p["iters"] if dt == np.float32 else 1e-7
    if name == "enum":
        uid = np.repeat(np.arange(U), np.diff(C.indptr))
        lr, reg = float(np.float32(p["lr"])), float(np.float32(p["reg"]))
        likes = [set(row_entries(C, u)[0].tolist()) for u in range(U)]
        n = C.nnz
        states = [(X.copy(), Y.copy(), 0, 0)]
        for _ in range(n):
            nxt = []
            for A, B, c, s in states:
                for a, b in itertools.product(range(n), range(n)):
                    u, i, j = uid[a], C.indices[a], C.indices[b]
                    if p["verify"] and int(j) in likes[u]:
                        nxt.append((A, B, c, s + 1))
                        continue
                    for order in ((0, 1, 2) if i == j else (0,)):
                        A2, B2 = A.copy(), B.copy()
                        k = step(A2, B2, u, i, j, lr, reg, order)
                        nxt.append((A2, B2, c + k, s))
            seen, states = set(), []
            for t in nxt:
                key = (t[0].tobytes(), t[1].tobytes(), t[2], t[3])
                if key not in seen:
                    seen.add(key)
                    states.append(t)
        for A, B, c, s in states:
            if np.abs(A - m.user_factors).max() <= 1e-7 and np.abs(B - m.item_factors).max() <= 1e-7 and (c, s) == (calls[0][1], calls[0][2]):
                return
        raise Broken("no sequence of %d draws gives the factors %s %s (correct %d, skipped %d) starting from %s %s with likes %s" % (
            n, m.user_factors.tolist(), m.item_factors.tolist(), calls[0][1], calls[0][2], X.tolist(), Y.tolist(), C.toarray().tolist()))
    if name == "stream":
        if C.nnz == 0 or not calibrated():
            return
        best = None
        Cs = sp.csr_matrix(C.astype(np.float32).asformat(p["fmt"]))
        if p["verify"]:
            Cs.sort_indices()
        for A, B, cs, ss in stream_oracle(p, Cs, X, Y):
            e = max(np.abs(A - m.user_factors).max(), np.abs(B - m.item_factors).max())
            if e <= tol and ss == [c[2] for c in calls] and (dt == np.float32 or cs == [c[1] for c in calls]):
                return
            best = min(best, e) if best is not None else e
        raise Broken("factors differ by %r from the BPR steps for the same draws (skipped %s, reported %s; correct %s, reported %s)" % (best, ss, [c[2] for c in calls], cs, [c[1] for c in calls]))
