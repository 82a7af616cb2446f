"""C20: memory safety and rejection of mismatched shapes"""
import importlib
import numpy as np
import scipy.sparse as sp
from core import *

MODS = ("p_c01", "p_c02", "p_c03", "p_c04", "p_c06", "p_c07", "p_c08", "p_c09", "p_c11", "p_c12", "p_c14", "p_c16", "p_c17")
REJ = ("als_rows", "mf_rows", "mf_rows_more", "knn_rows", "knn_cols", "recalc_rows", "recalc_cols", "recalc_item_cols", "recalc_item_rows", "partial_rows", "partial_cols", "mf_cols",
       "bad_user", "bad_item", "bad_item_list", "bad_user_list", "neg_item_list", "knn_bad_list", "refit_users", "refit_items", "dtype", "knn_neg_list", "recommend_recalc_cols", "sim_recalc_cols")


def cases(ctx):
    r = ctx.rng("C20")
    s = lambda: int(r.integers(1 << 30))
    for k in REJ:
        for m in ("als", "bpr", "lmf"):
            for extra in (1, 2, 50):
                yield ("reject", dict(what=k, model=m, extra=extra, seed=s()))
    yield ("dtype", dict(seed=s()))
    lists = []
    sub = Ctx(ctx.seed, "quick", ctx.consts, ctx.sizes)
    for m in MODS:
        L = list(importlib.import_module(m).cases(sub))
        k = max(1, len(L) // (400 if ctx.thorough else 60))
        lists.append([(m, c) for c in L[s() % k::k]])
    n = max(len(x) for x in lists)
    for i in range(n):
        for L in lists:
            if i < len(L):
                m, (c, p) = L[i]
                yield ("mem", dict(mod=m, case=c, params=p))


def run(name, p):
    if name == "mem":
        try:
            importlib.import_module(p["mod"]).run(p["case"], p["params"])
        except Exception:  # what is returned is checked by the other properties
            pass
        return
    rng = prng(p)
    E = (ValueError, IndexError)
    if name == "dtype":
        from implicit.cpu import _als
        C = rand_csr(rng, 5, 6, .5)
        for f in (_als.least_squares, _als.least_squares_cg):
            for dx, dy in (("float16", "float32"), ("float32", "float16"), ("int32", "float32"), ("float64", "int64")):
                expect_raises((ValueError, TypeError), lambda: f(C, np.ones((5, 2), dx), np.ones((6, 2), dy), .1, num_threads=1), "%s with %s/%s factors" % (f.__name__, dx, dy))
        return
    x = p["extra"]
    U, I = 7, 6
    w = p["what"]
    m = make_mf(p["model"], real_factors(rng, U, 4, np.float32, 0), real_factors(rng, I, 4, np.float32, 0), num_threads=2)
    als = p["model"] == "als"
    full = lambda a, b: sp.csr_matrix(np.ones((a, b), np.float32))
    T = lambda f, what: expect_raises(E, f, what)
    if w == "mf_rows":
        T(lambda: m.recommend(0, full(1 + x, I), N=2), "a scalar user with %d rows" % (1 + x))
    elif w == "mf_rows_more":
        T(lambda: m.recommend(np.arange(3), full(3 + x, I), N=2), "3 users with %d rows" % (3 + x))
        T(lambda: m.recommend(np.arange(3), full(2, I), N=2), "3 users with 2 rows")
        T(lambda: m.recommend(np.zeros(150 + x, int), full(150, I), N=2), "150+ users with 150 rows")
    elif w == "mf_cols":
        T(lambda: m.recommend(0, full(1, I + x), N=2), "liked items outside of the model")
    elif w == "als_rows" and als:
        T(lambda: m.recommend(np.arange(2), full(2 + x, I), N=2, recalculate_user=True, filter_already_liked_items=False), "2 users with %d rows" % (2 + x))
    elif w.startswith("knn"):
        import implicit.nearest_neighbours as nn
        k = nn.CosineRecommender(K=3, num_threads=1)
        k.fit(rand_csr(rng, U, I, .6, dtype=np.float64, empty_rows=0), show_progress=False)
        if w == "knn_cols":
            T(lambda: k.recommend(0, full(1, I + x), N=2), "item-item: interactions wider than the model")
            T(lambda: k.recommend(0, full(1, I + x), N=2, filter_already_liked_items=False), "item-item: interactions wider than the model")
        elif w == "knn_rows":
            T(lambda: k.recommend(np.arange(3), full(3 + x, I), N=2), "3 users with %d rows" % (3 + x))
            T(lambda: k.recommend(np.arange(3), full(2, I), N=2), "3 users with 2 rows")
            T(lambda: k.recommend(0, full(1 + x, I), N=2), "one user with %d rows" % (1 + x))
            T(lambda: k.recommend(0, full(0, I), N=2), "one user with no row")
            T(lambda: k.recommend(0, full(0, I), N=2, filter_already_liked_items=False), "one user with no row")
        elif w == "knn_bad_list":
            T(lambda: k.recommend(0, full(1, I), N=2, items=[0, I - 1 + x]), "item-item: items list with an unknown id")
        else:
            T(lambda: k.recommend(0, full(1, I), N=2, items=[-x, 1]), "item-item: items list with a negative id")
    elif w == "recalc_rows" and als:
        T(lambda: m.recalculate_user(0, full(1 + x, I)), "recalculate_user rows")
        T(lambda: m.recalculate_user(np.arange(3), full(3 + x, I)), "recalculate_user rows")
        T(lambda: m.recalculate_user(np.arange(3), full(2, I)), "recalculate_user rows")
    elif w == "recalc_item_rows" and als:
        T(lambda: m.recalculate_item(0, full(1 + x, U)), "recalculate_item rows")
        T(lambda: m.recalculate_item(np.arange(3), full(3 + x, U)), "recalculate_item rows")
        T(lambda: m.recalculate_item(np.arange(3), full(2, U)), "recalculate_item rows")
    elif w == "recalc_cols" and als:
        T(lambda: m.recalculate_user(0, full(1, I + x)), "recalculate_user with items outside of the model")
    elif w == "recalc_item_cols" and als:
        T(lambda: m.recalculate_item(0, full(1, U + x)), "recalculate_item with users outside of the model")
    elif w == "recommend_recalc_cols" and als:
        T(lambda: m.recommend(0, full(1, I + x), recalculate_user=True, filter_already_liked_items=False), "recommend recalculating with items outside of the model")
    elif w == "sim_recalc_cols" and als:
        T(lambda: m.similar_items(0, item_users=full(1, U + x), recalculate_item=True), "similar_items recalculating with users outside of the model")
    elif w == "partial_rows" and als:
        T(lambda: m.partial_fit_users(np.arange(3), full(3 + x, I)), "partial_fit_users rows")
        T(lambda: m.partial_fit_items(np.arange(3), full(3 + x, U)), "partial_fit_items rows")
        T(lambda: m.partial_fit_users(np.arange(3), full(2, I)), "partial_fit_users rows")
        T(lambda: m.partial_fit_items(np.arange(3), full(2, U)), "partial_fit_items rows")
    elif w == "partial_cols" and als:
        T(lambda: m.partial_fit_users(np.arange(3), full(3, I + x)), "partial_fit_users columns")
        T(lambda: m.partial_fit_items(np.arange(3), full(3, U + x)), "partial_fit_items columns")
    elif w == "bad_user":
        T(lambda: m.recommend(U - 1 + x, full(1, I), N=2), "an unknown user")
        T(lambda: m.recommend([0, U - 1 + x], full(2, I), N=2), "an unknown user")
        T(lambda: m.similar_users(U - 1 + x, N=2), "an unknown user")
        T(lambda: m.similar_users([0, U - 1 + x], N=2), "an unknown user")
    elif w == "bad_item":
        T(lambda: m.similar_items(I - 1 + x, N=2), "an unknown item")
        T(lambda: m.similar_items([1, I - 1 + x], N=2), "an unknown item")
    elif w == "bad_item_list":
        T(lambda: m.recommend(0, full(1, I), N=2, items=[0, I - 1 + x]), "an unknown item in the items list")
        T(lambda: m.similar_items(0, N=2, items=[0, I - 1 + x]), "an unknown item in the items list")
        T(lambda: m.recommend(0, full(1, I), N=2, filter_items=[0, I - 1 + x]), "an unknown item in filter_items")
    elif w == "bad_user_list":
        T(lambda: m.similar_users(0, N=2, users=[0, U - 1 + x]), "an unknown user in the users list")
    elif w == "neg_item_list":
        T(lambda: m.recommend(0, full(1, I), N=2, items=[0, -x]), "a negative item in the items list")
        T(lambda: m.similar_items(0, N=2, items=[0, -x]), "a negative item in the items list")
        T(lambda: m.similar_users(0, N=2, users=[0, -x]), "a negative user in the users list")
    elif w in ("refit_users", "refit_items"):
        sh = (U + x, I) if w == "refit_users" else (U, I + x)
        T(lambda: m.fit(full(*sh), show_progress=False), "refitting on %s" % (sh,))
        if x < 3:
            sh = (U - x, I) if w == "refit_users" else (U, I - x)
            T(lambda: m.fit(full(*sh), show_progress=False), "refitting on %s" % (sh,))
