"""Contracts of constructors and factories (C24)."""
from contract import *  # noqa

F32, F64 = I.DType("float32"), I.DType("float64")
ALS = [("factors", 100), ("regularization", Fraction("0.01")), ("alpha", 1), ("dtype", F32), ("use_native", True), ("use_cg", True),
       ("iterations", 15), ("calculate_training_loss", False), ("num_threads", 0), ("random_state", None)]
BPR = [("factors", 100), ("learning_rate", Fraction("0.01")), ("regularization", Fraction("0.01")), ("dtype", F32), ("iterations", 100),
       ("num_threads", 0), ("verify_negative_samples", True), ("random_state", None)]
LMF = [("factors", 30), ("learning_rate", 1), ("regularization", Fraction("0.6")), ("dtype", F32), ("iterations", 30), ("neg_prop", 30),
       ("num_threads", 0), ("random_state", None)]
KNN = [("K", 20), ("num_threads", 0)]
BM25 = [("K", 20), ("K1", Fraction("1.2")), ("B", Fraction("0.75")), ("num_threads", 0)]


def ins(lst, after, item):
    i = [n for n, _ in lst].index(after) + 1
    return lst[:i] + [item] + lst[i:]


FACT_ALS = ins(ALS, "use_cg", ("use_gpu", False))
FACT_BPR = ins([p for p in BPR if p[0] != "num_threads"], "iterations", ("use_gpu", False))
FACT_BPR = ins(FACT_BPR, "use_gpu", ("num_threads", 0))
FACT_LMF = ins(LMF, "neg_prop", ("use_gpu", False))
MF0 = ("user_factors", "item_factors", "_user_norms", "_item_norms")
TARGETS = [
    ("implicit.cpu.als:AlternatingLeastSquares", ALS, MF0 + ("_YtY", "_XtX", "fit_callback"), None),
    ("implicit.cpu.bpr:BayesianPersonalizedRanking", BPR, MF0, None),
    ("implicit.cpu.lmf:LogisticMatrixFactorization", LMF, MF0, None),
    ("implicit.nearest_neighbours:ItemItemRecommender", KNN, ("similarity", "scorer"), None),
    ("implicit.nearest_neighbours:CosineRecommender", KNN, ("similarity", "scorer"), None),
    ("implicit.nearest_neighbours:TFIDFRecommender", KNN, ("similarity", "scorer"), None),
    ("implicit.nearest_neighbours:BM25Recommender", BM25, ("similarity", "scorer"), None),
    ("implicit.als:AlternatingLeastSquares", FACT_ALS, MF0, "implicit.cpu.als:AlternatingLeastSquares"),
    ("implicit.bpr:BayesianPersonalizedRanking", FACT_BPR, MF0, "implicit.cpu.bpr:BayesianPersonalizedRanking"),
    ("implicit.lmf:LogisticMatrixFactorization", FACT_LMF, MF0, "implicit.cpu.lmf:LogisticMatrixFactorization"),
]


def value(c, name, default):
    if name == "dtype":
        return F64
    if isinstance(default, bool):
        return c.boolean("given_" + name)
    if isinstance(default, int) or name == "random_state":
        return c.integer("given_" + name)
    return c.real("given_" + name)


def same(c, what, got, want):
    if want is None or got is None:
        c.check(what, want is None and got is None, "%r instead of %r" % (got, want))
    elif isinstance(want, I.DType) or isinstance(got, I.DType) or isinstance(want, (str, H)) or isinstance(got, (str, H)):
        c.check(what, type(got) is type(want) and got == want, "%r instead of %r" % (got, want))
    elif not I.is_scalar(got) or not I.is_scalar(want):
        raise Unsupported("%s: value of type %s" % (what, type(got).__name__))
    else:
        c.equal(what, lift(got), lift(want))


def examine(c, label, outs, given, defaults, none, cls):
    n = 0
    for o in outs:
        m = c.at(o)
        if o.sig == "raise":
            c.fail(label + " never raises", o.val.typ)
            continue
        n += 1
        if cls:
            c.check(label + " builds the CPU class", isinstance(m, H) and m.cls is not None and (m.cls.mod + ":" + m.cls.name) == cls, "another class")
        for k, d in defaults:
            if k == "use_gpu":
                continue
            w = given.get(k, d)
            same(c, "%s: %s" % (label, k), c.public(m, k), w)
        for k in none:
            c.check("%s: new model has no %s" % (label, k), c.attr(m, k) is None, "set by the constructor")
    if not n:
        c.check(label, False, "no path returns")


def make(target, params, none, cls):
    @contract(["C24"], "constructor of " + target, [target + ".__init__" if cls is None else target])
    def run(c):
        c.w.summaries["implicit.utils:check_blas_config"] = lambda ip, f, a, k: None
        base = c.ip.st
        vals = {k: (False if k == "use_gpu" else value(c, k, d)) for k, d in params}
        st = c.ip.st
        mode = [("by keyword", [], vals), ("by position", [vals[k] for k, _ in params], {}), ("defaults", [], {})]
        for i, (k, d) in enumerate(params):
            if k != "use_gpu":
                mode.append(("only %s" % k, [], {k: vals[k]}))
        for name, a, kw in mode:
            c.ip.st = st.copy()
            given = dict(zip([k for k, _ in params], a)) if a else kw
            examine(c, name, c.call(target, a, kw), given, params, none, cls)


for t in TARGETS:
    make(*t)

APPROX = [
    ("implicit.approximate_als:NMSLibAlternatingLeastSquares", "implicit.ann.nmslib:NMSLibModel",
     [("approximate_similar_items", True), ("approximate_recommend", True), ("method", "hnsw")]),
    ("implicit.approximate_als:AnnoyAlternatingLeastSquares", "implicit.ann.annoy:AnnoyModel",
     [("approximate_similar_items", True), ("approximate_recommend", True), ("n_trees", 50), ("search_k", -1)]),
    ("implicit.approximate_als:FaissAlternatingLeastSquares", "implicit.ann.faiss:FaissModel",
     [("approximate_similar_items", True), ("approximate_recommend", True), ("nlist", 400), ("nprobe", 20), ("use_gpu", False)]),
]


def make_approx(target, cls, params):
    @contract(["C24", "C21"], "factory " + target, [target, cls + ".__init__"])
    def run(c):
        c.w.summaries["implicit.utils:check_blas_config"] = lambda ip, f, a, k: None
        vals = {k: ("other" if k == "method" else False if k == "use_gpu" else value(c, k, d)) for k, d in params}
        av = {k: value(c, k, d) for k, d in ALS}
        st = c.ip.st
        for name, a, kw in [("all by keyword", [], {**vals, **av, "use_gpu": False}), ("defaults", [], {"use_gpu": False}),
                            ("positional", [av["factors"], av["regularization"], av["alpha"]], {"use_gpu": False})]:
            c.ip.st = st.copy()
            for o in c.call(target, a, kw):
                m = c.at(o)
                if o.sig == "raise":
                    c.fail(name + " never raises", o.val.typ)
                    continue
                c.check(name + ": class", isinstance(m, H) and m.cls is not None and m.cls.mod + ":" + m.cls.name == cls, "another class")
                for k, d in params:
                    same(c, "%s: %s" % (name, k), c.public(m, k), kw.get(k, d))
                for k in ("similar_items_index", "recommend_index"):
                    c.check("%s: no %s" % (name, k), c.attr(m, k) is None, "set")
                if "NMS" in cls:
                    ix = c.ip.st.heap[c.attr(m, "index_params").id]
                    c.check(name + ": index parameters", {k: simple_(v) for k, v in ix.items()} == {"M": 16, "post": 0, "efConstruction": 400}, str(ix))
                    qx = c.ip.st.heap[c.attr(m, "query_params").id]
                    c.check(name + ": query parameters", {k: simple_(v) for k, v in qx.items()} == {"ef": 90}, str(qx))
                inner = c.attr(m, "model")
                g = dict(zip(("factors", "regularization", "alpha"), a)) if a else {k: v for k, v in kw.items() if k in av}
                for k, d in ALS:
                    same(c, "%s: wrapped %s" % (name, k), c.public(inner, k), g.get(k, d))


def simple_(v):
    from world import simple
    return simple(v) if isinstance(v, T) else v


for t in APPROX:
    make_approx(*t)
