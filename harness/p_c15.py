"""C15: train/test splits"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C15")
    s = lambda: int(r.integers(1 << 30))

    def mk(t, **kw):
        d = dict(seed=s(), users=12, items=10, density=.4, empty=.2, fmt="csr", neg=0.0, dtype="float32", rs="int", tp=.8, K=1, tos=0.0, order="any")
        d.update(kw)
        return (t, d)
    for t in ("tts", "lko"):
        for fmt in ("csr", "coo", "csc"):
            for dt in ("float32", "float64", "int32", "int64"):
                yield mk(t, fmt=fmt, dtype=dt)
        for rs in ("int", "gen", "rs", "none"):
            yield mk(t, rs=rs)
        yield mk(t, neg=.4)
        yield mk(t, density=1.0, empty=0.0)
        yield mk(t, empty=.8, users=30)
    for tp in (0.0, .2, .5, .8, .99, 1.0):
        for neg in (0.0, .5):
            yield mk("tts", tp=tp, neg=neg)
    for K in (1, 2, 3, 4, 5, 8, 9):
        for tos in (0.0, .01, .3, .5, .9, .999):
            yield mk("lko", K=K, tos=tos, users=20, items=12)
            yield mk("lko", K=K, tos=tos, users=20, items=12, neg=.3, fmt="coo")
    for b in ctx.bounds(2, 1100):
        yield mk("tts", users=b, items=5)
        yield mk("lko", users=b, items=6, K=1, tos=.2)
        if b < 100:
            yield mk("lko", K=b, items=b + 4, density=.9)
    yield mk("errors")
    for tp in (.1, .5, .8, .95):
        yield mk("fraction", tp=tp)
    for _ in range(3000 if ctx.thorough else 200):
        yield mk(str(r.choice(["tts", "lko", "lko"])), users=int(r.integers(1, 50)), items=int(r.integers(1, 25)), density=float(r.choice([.1, .4, .8])),
                 empty=float(r.choice([0, .2, .7])), fmt=str(r.choice(["csr", "coo", "csc"])), neg=float(r.choice([0, .3])), tp=float(r.random()),
                 K=int(r.integers(1, 7)), tos=float(r.choice([0, 0, r.random() * .99])), rs=str(r.choice(["int", "gen", "rs", "none"])))


def rstate(kind, seed):
    return {"int": seed, "gen": np.random.default_rng(seed), "rs": np.random.RandomState(seed), "none": None}[kind]


def entries(m):
    c = m.tocoo()
    d = {}
    for a, b, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
        need((a, b) not in d, "entry (%d,%d) is stored twice", a, b)
        d[(a, b)] = v
    return d


def run(name, p):
    if name == "fraction":
        return check_fraction(p)
    from implicit.evaluation import leave_k_out_split, train_test_split
    rng = prng(p)
    R = rand_csr(rng, p["users"], p["items"], p["density"], dtype=np.dtype(p["dtype"]), negatives=p["neg"], empty_rows=p["empty"], hi=9)
    if name == "errors":
        for K in (0, -1):
            expect_raises(ValueError, lambda: leave_k_out_split(R, K=K), "K=%d" % K)
        for f in (-.1, 1.0, 1.5):
            expect_raises(ValueError, lambda: leave_k_out_split(R, train_only_size=f), "train_only_size=%s" % f)
        return
    M = R.asformat(p["fmt"])
    if p["fmt"] == "coo" and M.nnz:
        o = rng.permutation(M.nnz)
        M = sp.coo_matrix((M.data[o], (M.row[o], M.col[o])), shape=M.shape)
    full = entries(R)
    if not full and p["tos"] > 0:
        return  # nothing to reserve
    seed = int(rng.integers(1 << 30))
    if name == "tts":
        train, test = train_test_split(M, train_percentage=p["tp"], random_state=rstate(p["rs"], seed))
    else:
        cand = np.diff(R.indptr)
        train, test = leave_k_out_split(M, K=p["K"], train_only_size=p["tos"], random_state=rstate(p["rs"], seed))
    for nm, m in (("train", train), ("test", test)):
        need(sp.issparse(m) and m.shape == R.shape, "%s has shape %s, the ratings %s", nm, m.shape, R.shape)
        need(m.dtype == R.dtype, "%s has dtype %s, the ratings %s", nm, m.dtype, R.dtype)
        need(m.format == "csr", "%s is %s", nm, m.format)
    tr, te = entries(train), entries(test)
    need(not (set(tr) & set(te)), "ratings %s are in train and in test", sorted(set(tr) & set(te))[:5])
    for nm, d in (("train", tr), ("test", te)):
        for k, v in d.items():
            need(k in full, "%s has (%d,%d), which isn't a rating", nm, k[0], k[1])
            need(v == full[k], "%s has %r for (%d,%d), the rating is %r", nm, v, k[0], k[1], full[k])
    for k, v in full.items():
        if k in tr or k in te:
            continue
        need(name == "tts" and v < 0, "rating (%d,%d)=%r is in neither train nor test", k[0], k[1], v)
    if name == "tts":
        for k, v in te.items():
            need(v >= 0, "test has the negative rating %r", v)
        if p["tp"] == 0.0:
            need(not tr, "train_percentage 0 but train isn't empty")
        if p["tp"] == 1.0:
            need(len(tr) == len(full), "train_percentage 1 but %d ratings are not in train", len(full) - len(tr))
        return
    K = p["K"]
    cnt = np.diff(R.indptr)
    tcnt = np.zeros(p["users"], int)
    for (u, _) in te:
        tcnt[u] += 1
    elig = [u for u in range(p["users"]) if cnt[u] > K + 1]
    for u in range(p["users"]):
        if u not in elig:
            need(tcnt[u] == 0, "user %d has %d ratings and %d of them are in test (K=%d)", u, cnt[u], tcnt[u], K)
        else:
            need(tcnt[u] in ((K,) if p["tos"] == 0 else (0, K)), "user %d has %d ratings in test (K=%d)", u, tcnt[u], K)
    if p["tos"] > 0:
        n = int((cnt > 0).sum())
        sizes = {max(1, int(n * p["tos"])), max(1, int(n * float(np.float32(p["tos"])))), max(1, int(np.float32(n) * np.float32(p["tos"])))}
        out = sum(1 for u in elig if tcnt[u] == 0)
        need(out <= max(sizes), "%d eligible users were kept out of test, %s users should be reserved", out, sizes)
        # at most the reserved users that are not eligible themselves can absorb the rest
        need(out >= min(sizes) - (n - len(elig)), "only %d eligible users were kept out of test, %s of %d users should be reserved (%d eligible)", out, sizes, n, len(elig))


def check_fraction(p):
    from implicit.evaluation import train_test_split
    rng = prng(p)
    R = sp.random(300, 200, density=.5, format="csr", random_state=np.random.RandomState(p["seed"] % 1000), dtype=np.float32)
    n = R.nnz
    tr, te = train_test_split(R, p["tp"], random_state=int(rng.integers(1 << 30)))
    sd = (n * p["tp"] * (1 - p["tp"])) ** .5
    need(abs(tr.nnz - n * p["tp"]) <= 7 * sd + 1, "%d of %d ratings are in train with train_percentage %r", tr.nnz, n, p["tp"])
