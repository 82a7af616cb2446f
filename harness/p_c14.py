"""C14: ranking metrics"""
import numpy as np
import scipy.sparse as sp
from core import *


def cases(ctx):
    r = ctx.rng("C14")
    s = lambda: int(r.integers(1 << 30))

    def mk(t="fake", **kw):
        d = dict(seed=s(), users=12, items=15, K=5, density=.25, short=.3, empty=.2, fmt="csr", hitp=.4)
        d.update(kw)
        return (t, d)
    for K in (1, 2, 3, 5, 10, 14, 15, 16, 40):
        for short in (0, .4, 1.0):
            yield mk(K=K, short=short)
    for u in (1, 2, 999, 1000, 1001, 1999, 2000, 2001, 2500):
        yield mk(users=u, empty=0.0, density=.2)
        yield mk(users=u, empty=.5, items=8, K=3)
    for b in ctx.bounds(2, 2600):
        yield mk(users=b, empty=0.0, items=9, K=3)
        if b < 300:
            yield mk(K=b, items=30)
            yield mk(items=b + 1, K=4)
    for fmt in ("csr", "coo", "csc"):
        yield mk(fmt=fmt)
        yield mk("real", fmt=fmt)
    yield mk(hitp=1.0)
    yield mk(hitp=0.0)
    yield mk(empty=.95, users=40)
    for kind in ("als", "bpr", "lmf", "knn"):
        for K in (1, 4, 10, 30):
            yield mk("real", kind=kind, K=K, density=.1)
            yield mk("real", kind=kind, K=K, density=.4)
    for _ in range(2000 if ctx.thorough else 150):
        yield mk(users=int(r.integers(1, 60)), items=int(r.integers(2, 40)), K=int(r.integers(1, 45)), density=float(r.choice([.05, .2, .5, .9])),
                 short=float(r.choice([0, .3, 1])), empty=float(r.choice([0, .3, .8])), hitp=float(r.choice([.1, .4, .9])))


class Fake:
    def __init__(self, lists, train):
        self.lists, self.train, self.calls = lists, train, []

    def recommend(self, userid, user_items, N=10, **kw):
        ids = np.atleast_1d(np.asarray(userid)).astype(int)
        need(user_items.shape[0] == len(ids), "recommend called with %d users and %d rows", len(ids), user_items.shape[0])
        need((abs(sp.csr_matrix(user_items) - self.train[ids])).nnz == 0, "recommend was not given the training rows of the users %s", ids.tolist())
        self.calls += ids.tolist()
        out = np.full((len(ids), N), -1, dtype=np.int32)
        sc = np.full((len(ids), N), -np.finfo(np.float32).max, dtype=np.float32)
        for k, u in enumerate(ids):
            L = self.lists[u][:N]
            out[k, :len(L)] = L
            sc[k, :len(L)] = np.arange(len(L), 0, -1)
        w = max([len(self.lists[u][:N]) for u in ids] + [1])
        out, sc = out[:, :w], sc[:, :w]
        return (out[0], sc[0]) if np.isscalar(userid) else (out, sc)


def metrics(lists, test, K, items):
    rel = div = ap_t = nd_t = auc_t = 0.0
    n = 0
    g = 1.0 / np.log2(np.arange(2, K + 2))
    for u in range(test.shape[0]):
        likes = set(row_entries(test, u)[0].tolist())
        if not likes:
            continue
        n += 1
        div += min(K, len(likes))
        hits = miss = 0
        ap = nd = auc = 0.0
        for p, i in enumerate(lists[u][:K]):
            if i < 0:
                break
            if i in likes:
                hits += 1
                ap += hits / (p + 1)
                nd += g[p]
            else:
                miss += 1
                auc += hits
        pos, neg = len(likes), items - len(likes)
        auc += (hits + pos) / 2.0 * (neg - miss)
        rel += hits
        ap_t += ap / min(K, pos)
        nd_t += nd / g[:min(K, pos)].sum()
        auc_t += auc / (pos * neg)
    return {"precision": rel / div, "map": ap_t / n, "ndcg": nd_t / n, "auc": auc_t / n}


def run(name, p):
    from implicit import evaluation as ev
    rng = prng(p)
    U, I, K = p["users"], p["items"], p["K"]
    test = rand_csr(rng, U, I, p["density"], empty_rows=p["empty"])
    for u in range(U):  # at least one item that isn't a test item
        if test.indptr[u + 1] - test.indptr[u] >= I:
            test = test.tolil()
            test[u, int(rng.integers(I))] = 0
            test = test.tocsr()
            test.eliminate_zeros()
    if test.nnz == 0:
        test = sp.csr_matrix((np.ones(1, np.float32), ([int(rng.integers(U))], [int(rng.integers(I))])), shape=(U, I))
    train = rand_csr(rng, U, I, .2)
    train = (train - train.multiply(test != 0)).tocsr().astype(np.float32)
    train.eliminate_zeros()
    if name == "fake":
        lists = []
        for u in range(U):
            likes = row_entries(test, u)[0].tolist()
            other = [i for i in range(I) if i not in set(likes)]
            rng.shuffle(other)
            rng.shuffle(likes)
            L = []
            while likes or other:
                L.append(likes.pop() if likes and (not other or rng.random() < p["hitp"]) else other.pop())
            n = K if rng.random() >= p["short"] else int(rng.integers(0, K + 1))
            lists.append(L[:n])
        model = Fake(lists, train)
    else:
        kind = p.get("kind", "als")
        if kind == "knn":
            import implicit.nearest_neighbours as nn
            model = nn.CosineRecommender(K=4, num_threads=1)
            model.fit(train + sp.csr_matrix((np.ones(1, np.float32), ([0], [0])), shape=(U, I)) * 0, show_progress=False)
        else:
            model = make_mf(kind, real_factors(rng, U, 4, np.float32, 0), real_factors(rng, I, 4, np.float32, 0), num_threads=1)
        lists = []
        for u in range(U):
            ids, sc = model.recommend(u, train[u], N=K)
            lists.append([int(i) for i in ids])
    want = metrics(lists, test, K, I)
    tr, te = train.asformat(p["fmt"]), test.asformat(p["fmt"])
    got = ev.ranking_metrics_at_k(model, tr, te, K=K, show_progress=False, num_threads=1)
    need(set(got) == set(want), "metrics reported: %s", sorted(got))
    for k in want:
        need(np.isfinite(got[k]) and abs(got[k] - want[k]) <= 1e-9, "%s at %d is %r, by definition it is %r", k, K, got[k], want[k])
        need(-1e-12 <= got[k] <= 1 + 1e-9, "%s at %d is %r, outside [0, 1]", k, K, got[k])
    if name == "fake":
        tested = [u for u in range(U) if test.indptr[u + 1] > test.indptr[u]]
        need(sorted(set(model.calls)) == tested, "recommendations were asked for users %s, the users with test items are %s", sorted(set(model.calls))[:20], tested[:20])
    for f, k in ((ev.precision_at_k, "precision"), (ev.mean_average_precision_at_k, "map"), (ev.ndcg_at_k, "ndcg"), (ev.AUC_at_k, "auc")):
        v = f(model, tr, te, K=K, show_progress=False, num_threads=1)
        need(abs(v - want[k]) <= 1e-9, "%s returns %r, the %s is %r", f.__name__, v, k, want[k])
