"""C17: LMF training"""
import itertools
import numpy as np
import scipy.sparse as sp
from core import *
from p_c16 import Stream

KNOWN = set()


def cases(ctx):
    r = ctx.rng("C17")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="exact", **kw):
        d = dict(seed=s(), users=7, items=8, f=3, lr=.3, reg=.3, negp=0, density=.4, iters=1, fmt="csr", idx="int32", sort=True, ddtype="float32", empty=.15, scale=.6, nth=1, hi=5)
        d.update(kw)
        return (t, d)
    for f in (1, 2, 5, 17):
        for iters in (1, 2, 4):
            for nth in (1, 3):
                yield mk(f=f, iters=iters, nth=nth)
                yield mk(f=f, iters=iters, nth=nth, hi=1, reg=0.0)
    for fmt in ("csr", "coo", "csc"):
        for idx in ("int32", "int64"):
            yield mk(fmt=fmt, idx=idx, sort=False)
    for dd in ("float32", "float64", "int32"):
        yield mk(ddtype=dd, iters=2)
    for sc in (20.0, 60.0):
        yield mk(scale=sc, lr=.1)
    yield mk(empty=.6, users=20, items=20, density=.1, iters=3)
    for nnz in (1, 2, 3):
        for negp in (1, 2):
            for f in (1, 2):
                if nnz == 3 and negp == 2:
                    continue
                for _ in range(3):
                    yield mk("enum", nnz=nnz, negp=negp, f=f, users=3, items=4)
    for negp in (1, 2, 3, 30):
        for f in (1, 2, 4, 20, 40):
            for n in (6, 30):
                yield mk("stream", negp=negp, f=f, users=n, items=n, density=.3)
                yield mk("stream", negp=negp, f=f, users=n, items=n, density=.3, iters=2)
    for negp in (0, 1, 2, 3, 30):
        for f in (1, 2, 6, 40):
            for n in (3, 7, 22):
                for kind in ("items", "users"):
                    yield mk("count", negp=negp, f=f, users=n, items=n + 2, density=.4, kind=kind, lr=.3, reg=.5, empty=.2, scale=.3)
    for b in ctx.bounds(2, 600):
        yield mk(users=b, nth=0, f=2)
        yield mk(items=b, nth=0, f=2, density=min(.4, 8 / b))
        if b < 130:
            yield mk(f=b)
            yield mk("stream", f=b, negp=2, users=9, items=9)
    for nth in (1, 4):
        for negp in (0, 3):
            yield mk("init", nth=nth, negp=negp, empty=.4, iters=2)
            yield mk("init", nth=nth, negp=negp, empty=.6, iters=2, users=30, items=45, density=.05)
    for _ in range(2000 if ctx.thorough else 100):
        yield mk(str(r.choice(["exact", "stream"])), users=int(r.integers(1, 30)), items=int(r.integers(1, 30)), f=int(r.integers(1, 10)), lr=float(r.choice([.05, .3, 1.])),
                 reg=float(r.choice([0, .3, .6])), negp=int(r.choice([1, 2, 5])), density=float(r.choice([.1, .4, .9])), iters=int(r.integers(1, 4)), empty=float(r.choice([0, .3])), nth=1)

def sig(x):
    return 1.0 / (1.0 + np.exp(-x)) if x >= 0 else np.exp(x) / (1.0 + np.exp(x))


def half(X, Y, C, S, lr, reg, draws):
    """draws: function(row, interactions) -> list of sampled ids; returns bound of the rounding error"""
    E = np.zeros(X.shape)
    for u in range(C.shape[0]):
        idx, dat = row_entries(C, u)
        if not len(idx):
            continue
        x = X[u].copy()
        d = np.zeros(X.shape[1])
        mag = np.abs(reg * x)
        for i, c in zip(idx, dat):
            t = c * Y[i]
            d += t - sig(float(x @ Y[i])) * t
            mag += np.abs(t) * (2 + np.abs(x * Y[i]).sum())
        for j in draws(u, len(idx)):
            z = sig(float(x @ Y[j]))
            d -= z * Y[j]
            mag += np.abs(Y[j]) * (1 + np.abs(x * Y[j]).sum())
        d -= reg * x
        S[u] += d * d
        X[u] += lr / np.sqrt(1e-6 + S[u]) * d
        E[u] = lr * np.minimum(2.0, 2e-6 * mag / np.sqrt(1e-6 + S[u])) + 1e-6 * np.abs(X[u])
    return E


def fit(p, C, X, Y, nth, cb=None):
    from implicit.cpu.lmf import LogisticMatrixFactorization as M
    m = M(factors=p["f"], learning_rate=p["lr"], regularization=p["reg"], iterations=p["iters"], neg_prop=p["negp"], num_threads=nth, random_state=p["seed"] % 100003)
    if X is not None:
        m.user_factors, m.item_factors = X.copy(), Y.copy()
    m.fit(C, show_progress=False, callback=cb)
    return m


POL = {"dim": lambda dim, other, want: min(dim, want), "items": lambda dim, other, want: min(other, want), "doc": lambda dim, other, want: want}


def oracle(p, C, X, Y, policy, draws_u=None, draws_i=None):
    A, B = X.astype(np.float64), Y.astype(np.float64)
    Su, Si = np.zeros(A.shape), np.zeros(B.shape)
    Ct = C.T.tocsr()
    Ct.sort_indices()
    C = C.copy()
    C.sort_indices()
    dim = A.shape[1]
    if draws_u is None:
        seeds = np.random.default_rng(p["seed"] % 100003).integers(0, 2**31, size=1, dtype="long")
        g = Stream(int(seeds[0]), C.nnz)
        draws_u = lambda u, n: [C.indices[g()] for _ in range(POL[policy](dim, C.shape[1], n * p["negp"]))]
        draws_i = lambda u, n: [Ct.indices[g()] for _ in range(POL[policy](dim, C.shape[0], n * p["negp"]))]
    err = 0.0
    for _ in range(p["iters"]):
        e1 = half(A, B, C, Su, p["lr"], p["reg"], draws_u)
        A[:, -2] = 1
        e2 = half(B, A, Ct, Si, p["lr"], p["reg"], draws_i)
        B[:, -1] = 1
        err = 4 * err + max(e1.max(), 0) * 10 + max(e2.max(), 0)
    return A, B, err


def data(rng, p):
    if "nnz" in p:
        U, I = p["users"], p["items"]
        cells = rng.permutation(U * I)[:p["nnz"]]
        C = sp.csr_matrix((rng.integers(1, 4, size=len(cells)).astype(np.float32), (cells // I, cells % I)), shape=(U, I))
    else:
        C = rand_csr(rng, p["users"], p["items"], p["density"], ints=None, dtype=np.dtype(p["ddtype"]), idx_dtype=np.dtype(p["idx"]), sort=p["sort"], empty_rows=p["empty"], hi=p["hi"])
    U, I = C.shape
    X = (rng.standard_normal((U, p["f"] + 2)) * p["scale"]).astype(np.float32)
    Y = (rng.standard_normal((I, p["f"] + 2)) * p["scale"]).astype(np.float32)
    X[:, -2] = 1
    Y[:, -1] = 1
    return C, X, Y


_pol = {}


def policies():
    """which sampling counts does the code use (decided on small cases with the stream)"""
    if "p" not in _pol:
        good = set(POL)
        for seed in range(4):
            for f, negp, n in ((1, 2, 9), (30, 2, 9), (1, 1, 4)):
                p = dict(seed=seed, users=n, items=n, f=f, lr=.1, reg=.1, negp=negp, density=.5, iters=1, idx="int32", ddtype="float32", sort=True, empty=0.0, scale=.5, hi=3, nth=1)
                C, X, Y = data(np.random.default_rng(seed), p)
                m = fit(p, C, X, Y, 1)
                for k in list(good):
                    A, B, err = oracle(p, C, X, Y, k)
                    if max(np.abs(A - m.user_factors).max(), np.abs(B - m.item_factors).max()) > max(err, 1e-4):
                        good.discard(k)
        _pol["p"] = good
    return _pol["p"]


_cnt = {"left": {"dim", "items", "doc"}}
FINDING = "LogisticMatrixFactorization.fit: lmf_update caps the number of negative samples of a row at the factor dimension (item_vectors.shape[1]) instead of the number of items"


def run_count(p):
    """all vectors of the other side are equal, so the result only depends on how many samples are drawn"""
    rng = prng(p)
    C, X, Y = data(rng, p)
    if p["kind"] == "items":
        Y[:] = Y[0]
    else:
        k = max(1, C.shape[1] // 2)
        ids = rng.permutation(C.shape[1])[:k]
        D = np.zeros(C.shape, np.float32)
        D[:, ids] = rng.integers(1, 3, size=k)
        C = sp.csr_matrix(D)
        X[:] = X[0]
        Y[:] = Y[0]
    if C.nnz == 0:
        return
    m = fit(p, C, X, Y, 1)
    ok = set()
    errs = {}
    for k in POL:
        dim = X.shape[1]
        C.sort_indices()
        Ct = C.T.tocsr()
        A, B, err = oracle(p, C, X, Y, k, lambda u, n: [C.indices[0]] * POL[k](dim, C.shape[1], n * p["negp"]), lambda u, n: [Ct.indices[0]] * POL[k](dim, C.shape[0], n * p["negp"]))
        e = np.abs(A - m.user_factors).max()
        if p["kind"] == "users":
            e = max(e, np.abs(B - m.item_factors).max())
        errs[k] = float(e)
        if e <= max(err, 1e-4):
            ok.add(k)
    need(ok, "the number of sampled negatives isn't interactions*neg_prop with any of the accepted caps: errors %s", errs)
    left = _cnt["left"] & ok
    need(left, "the number of sampled negatives follows %s here and %s elsewhere", sorted(ok), sorted(_cnt["left"]))
    _cnt["left"] = left
    if left == {"dim"}:
        KNOWN.add(FINDING)


def run(name, p):
    if name == "count":
        return run_count(p)
    if name == "exact":
        p = dict(p, negp=0)
    rng = prng(p)
    C, X, Y = data(rng, p)
    U, I = C.shape
    noU, noI = np.diff(C.indptr) == 0, np.bincount(C.indices, minlength=I) == 0
    calls = []
    cb = lambda e, t, *a: calls.append(e)

    def frame(m, X, Y):
        need(np.array_equal(np.delete(m.user_factors[noU], -2, 1), np.delete(X[noU], -2, 1)), "users without interactions were changed")
        need(np.array_equal(m.item_factors[noI][:, :-1], Y[noI][:, :-1]), "items without interactions were changed")
        if p["iters"]:
            need(bool(np.all(m.user_factors[:, -2] == 1)), "second to last column of the users isn't 1")
            need(bool(np.all(m.item_factors[:, -1] == 1)), "last column of the items isn't 1")
        need(calls == list(range(p["iters"])), "callbacks for epochs %s of %d", calls, p["iters"])
    if name == "init":
        m = fit(dict(p, iters=0), C, None, None, p["nth"])
        X, Y = m.user_factors.copy(), m.item_factors.copy()
        need(X.shape == (U, p["f"] + 2) and Y.shape == (I, p["f"] + 2), "factor shapes %s %s", X.shape, Y.shape)
        need(bool(np.all(np.delete(X[noU], -2, 1) == 0)) and bool(np.all(Y[noI][:, :-1] == 0)), "users/items without interactions don't start at zero")
        need(bool(np.all(X[~noU][:, -2] == 1)) and bool(np.all(Y[~noI][:, -1] == 1)), "reserved columns don't start at 1")
        m = fit(p, C, None, None, p["nth"], cb)
        frame(m, X, Y)
        return
    m = fit(p, C.asformat(p["fmt"]), X, Y, p["nth"], cb)
    frame(m, X, Y)
    C32 = C.astype(np.float32)
    if name == "exact":
        A, B, err = oracle(p, C32, X, Y, "dim", lambda u, n: [], lambda u, n: [])
        for nm, a, b in (("user", A, m.user_factors), ("item", B, m.item_factors)):
            need(bool(np.all(np.isfinite(b))), "%s factors not finite", nm)
            e = np.abs(a - b).max()
            need(e <= max(err, 1e-4), "%s factors differ by %r from the AdaGrad update (without sampling)", nm, float(e))
        return
    if C.nnz == 0:
        return
    if name == "enum":
        Ct = C32.T.tocsr()
        Ct.sort_indices()
        C32.sort_indices()
        n = C.nnz
        dim = p["f"] + 2
        for pol in ("dim", "items", "doc"):
            cu = [POL[pol](dim, I, int(k) * p["negp"]) for k in np.diff(C32.indptr)]
            ci = [POL[pol](dim, U, int(k) * p["negp"]) for k in np.diff(Ct.indptr)]
            if n ** sum(cu) > 1500 or n ** sum(ci) > 1500:
                continue
            # the order of draws inside a row is irrelevant: enumerate per phase
            for du in itertools.product(range(n), repeat=sum(cu)):
                offs = np.concatenate([[0], np.cumsum(cu)])
                A, B = X.astype(np.float64), Y.astype(np.float64)
                half(A, B, C32, np.zeros(A.shape), p["lr"], p["reg"], lambda u, k: [C32.indices[t] for t in du[offs[u]:offs[u + 1]]])
                A[:, -2] = 1
                if np.abs(A - m.user_factors).max() > 1e-3:
                    continue
                offi = np.concatenate([[0], np.cumsum(ci)])
                for di in itertools.product(range(n), repeat=sum(ci)):
                    B2 = Y.astype(np.float64)
                    half(B2, m.user_factors.astype(np.float64), Ct, np.zeros(B2.shape), p["lr"], p["reg"], lambda u, k: [Ct.indices[t] for t in di[offi[u]:offi[u + 1]]])
                    B2[:, -1] = 1
                    if np.abs(B2 - m.item_factors).max() <= 1e-3:
                        return
        raise Broken("no sequence of draws gives the factors %s %s from %s %s, interactions %s" % (m.user_factors.tolist(), m.item_factors.tolist(), X.tolist(), Y.tolist(), C.toarray().tolist()))
    if name == "stream":
        pols = policies()
        if not pols:
            return
        best = 1e9
        for k in pols:
            A, B, err = oracle(p, C32, X, Y, k)
            e = max(np.abs(A - m.user_factors).max(), np.abs(B - m.item_factors).max())
            if e <= max(err, 1e-4):
                return
            best = min(best, e)
        raise Broken("factors differ by %r from the AdaGrad update with the same draws" % best)


