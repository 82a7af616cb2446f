"""Run-time contract checking of the real (built) code: shared helpers.

Every property module defines
    cases(ctx)           -> iterator of (case name, JSON-able params)
    run(name, params)    -> raises Broken(...) when the contract is violated
Cases are a deterministic function of the seed, the tier and of the integer constants that
occur in the current source (boundary values)."""
import ast
import glob
import io
import os
import re
import tokenize

import numpy as np
import scipy.sparse as sp

REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """the contract is violated by the real code on this input"""


def need(cond, msg, *args):
    if not cond:
        raise Broken(msg % args if args else msg)


class Ctx:
    def __init__(self, seed, tier, consts, sizes=()):
        self.seed = seed
        self.tier = tier
        self.consts = consts
        self.sizes = list(sizes)
        self.thorough = tier == "thorough"

    def rng(self, *salt):
        return np.random.default_rng([self.seed & 0x7FFFFFFF, *[abs(hash_s(s)) for s in salt]])

    def bounds(self, lo, hi):
        """boundary values near constants of the source, within [lo, hi]"""
        out = set()
        for c in self.consts:
            for d in (-1, 0, 1):
                if lo <= c + d <= hi:
                    out.add(c + d)
        if hi >= 1000:
            for c in FRESH_INTS:
                for d in (-1, 0, 1):
                    if lo <= c + d <= 10000:
                        out.add(c + d)
        return sorted(out)


def hash_s(s):
    if isinstance(s, (int, np.integer)):
        return int(s) & 0x7FFFFFFF
    h = 2166136261
    for ch in str(s).encode():
        h = ((h ^ ch) * 16777619) & 0xFFFFFFFF
    return h & 0x7FFFFFFF


def prng(params):
    return np.random.default_rng(params["seed"])


def source_numbers():
    """integers and other numbers that occur in the current CPU sources (comments, docstrings and strings dropped)"""
    ints, floats = set(), set()
    files = []
    for ext in ("py", "pyx", "pxi", "h"):
        files += glob.glob(os.path.join(REPO, "implicit", "**", "*." + ext), recursive=True)
    for f in files:
        rel = os.path.relpath(f, REPO)
        if rel.startswith(("implicit/gpu", "implicit/datasets")):
            continue
        text = open(f, encoding="utf8", errors="replace").read()
        if f.endswith(".h"):
            text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        else:
            text = re.sub(r'("""|\'\'\').*?\1', " ", text, flags=re.S)
            text = re.sub(r"#[^\n]*", " ", text)
            text = re.sub(r"\"[^\"\n]*\"|'[^'\n]*'", " ", text)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", text):
            ints.add(int(m.group(1)))
        for m in re.finditer(r"1\s*<<\s*(\d+)|2\s*\*\*\s*(\d+)", text):
            e = int(m.group(1) or m.group(2))
            if e < 16:
                ints.add(1 << e)
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:e[-+]?\d+)?|\.\d+(?:e[-+]?\d+)?|\d+e[-+]?\d+)(?![\w.])", text, re.I):
            floats.add(float(m.group(1)))
    return ints, floats


def source_constants():
    return sorted(c for c in source_numbers()[0] if 2 <= c <= 5000)


BASE_INTS = [0, 1, 2, 3, 6, 8, 10, 15, 16, 20, 30, 31, 50, 90, 100, 400, 1000, 1024]
BASE_FLOATS = [0.0, 1e-20, 1e-10, 1e-06, 0.01, 0.5, 0.6, 0.75, 0.8, 1.0, 1.2, 2.0, 100.0]


def fresh_floats():
    """numbers that the tree this framework was written for does not have: generated values are also taken near them"""
    i, f = source_numbers()
    return sorted(float(v) for v in (f - set(BASE_FLOATS)) | (i - set(BASE_INTS)) if 1e-6 <= v <= 1e4)


FRESH = fresh_floats()
FRESH_INTS = sorted(source_numbers()[0] - set(BASE_INTS))[:8]


def near_fresh(rng, v, p=.15):
    """replace some of the values by values near a new constant of the source"""
    if FRESH and len(v):
        c = rng.choice(FRESH, size=len(v)) * rng.choice([.5, 1, 2], size=len(v))
        v = np.where(rng.random(len(v)) < p, c, v)
    return v


# ---------------------------------------------------------------- data
def int_factors(rng, n, f, dtype, zero_rows=0.1, hi=4):
    m = rng.integers(-hi, hi + 1, size=(n, f)).astype(dtype)
    if zero_rows and n:
        m[rng.random(n) < zero_rows] = 0
    return m


def real_factors(rng, n, f, dtype, zero_rows=0.05):
    m = rng.standard_normal((n, f))
    if FRESH and n and f:
        norm = np.linalg.norm(m, axis=1)
        m *= (near_fresh(rng, norm) / norm)[:, None]
    m = m.astype(dtype)
    if zero_rows and n:
        m[rng.random(n) < zero_rows] = 0
    return m


def rand_csr(rng, rows, cols, density=0.2, dtype=np.float32, negatives=0.0, ints=True,
             empty_rows=0.15, hi=5, idx_dtype=np.int32, sort=True, dups=0.0):
    """random CSR without explicit zeros; some rows empty; ints=None: integer values or not, at random"""
    if ints is None:
        ints = np.dtype(dtype).kind != "f" or bool(rng.random() < .5)
    indptr = [0]
    indices, data = [], []
    for r in range(rows):
        k = 0 if rng.random() < empty_rows else int(rng.binomial(cols, min(1.0, density)))
        k = min(k, cols)
        c = rng.permutation(cols)[:k]
        if dups and k and rng.random() < dups:
            c = np.concatenate([c, c[:1]])
        if sort:
            c = np.sort(c)
        v = rng.integers(1, hi + 1, size=len(c)).astype(np.float64) if ints else near_fresh(rng, rng.random(len(c)) * hi + 0.25)
        if not ints and len(c):
            v = np.where(rng.random(len(c)) < .1, v * 1e-3, v)
        if negatives:
            v = np.where(rng.random(len(c)) < negatives, -v, v)
        indices.append(c)
        data.append(v)
        indptr.append(indptr[-1] + len(c))
    indices = np.concatenate(indices) if indices else np.zeros(0)
    data = np.concatenate(data) if data else np.zeros(0)
    m = sp.csr_matrix((data.astype(dtype), indices.astype(idx_dtype), np.array(indptr, dtype=idx_dtype)),
                      shape=(rows, cols))
    if idx_dtype == np.int64:
        m.indices = m.indices.astype(np.int64)
        m.indptr = m.indptr.astype(np.int64)
    return m


def finfo_min(dtype):
    return -np.finfo(dtype).max


def tol_for(dtype, scale=1.0):
    return (3e-5 if np.dtype(dtype) == np.float32 else 1e-9) * max(1.0, scale)


def check_topn(ids, scores, truth, candidates, N, tol, what):
    """ids/scores: 1-d result; truth: dict/array id -> exact score; candidates: ids eligible"""
    ids = np.asarray(ids)
    scores = np.asarray(scores)
    need(ids.ndim == 1 and scores.ndim == 1, "%s: result is not one-dimensional: %s %s", what, ids.shape, scores.shape)
    need(len(ids) == len(scores), "%s: %d ids but %d scores", what, len(ids), len(scores))
    cand = np.asarray(sorted(candidates))
    want = min(N, len(cand))
    need(len(ids) == want, "%s: %d results, expected %d (N=%d, candidates=%d)", what, len(ids), want, N, len(cand))
    need(len(set(ids.tolist())) == len(ids), "%s: repeated ids %s", what, ids.tolist())
    cs = set(cand.tolist())
    for p, i in enumerate(ids.tolist()):
        need(i in cs, "%s: id %s at position %d is not a candidate", what, i, p)
        t = float(truth[i])
        need(np.isfinite(scores[p]) and abs(float(scores[p]) - t) <= tol,
             "%s: score of id %d is %r, expected %r", what, i, float(scores[p]), t)
    if len(scores) > 1:
        need(bool(np.all(scores[:-1] >= scores[1:])), "%s: scores not in order: %s", what, scores.tolist())
    if len(ids) and len(ids) < len(cand):
        left = [j for j in cand.tolist() if j not in set(ids.tolist())]
        best = max(float(truth[j]) for j in left)
        worst = min(float(truth[i]) for i in ids.tolist())
        need(best <= worst + tol, "%s: left out a candidate scoring %r while returning one scoring %r", what, best, worst)


def snapshot(o):
    """deep value of arrays, sparse matrices, containers"""
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.copy())
    if sp.issparse(o):
        if o.format in ("csr", "csc"):
            return ("sp", o.format, o.shape, snapshot(o.data), snapshot(o.indices), snapshot(o.indptr))
        if o.format == "coo":
            return ("sp", o.format, o.shape, snapshot(o.data), snapshot(o.row), snapshot(o.col))
        return ("sp", o.format, o.shape, snapshot(o.toarray()))
    if isinstance(o, dict):
        return ("dict", {k: snapshot(v) for k, v in o.items()})
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snapshot(v) for v in o])
    return ("val", o)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "nd":
        return a[1] == b[1] and a[2] == b[2] and np.array_equal(a[3], b[3], equal_nan=a[3].dtype.kind == "f")
    if a[0] == "sp":
        return a[1] == b[1] and a[2] == b[2] and all(same(x, y) for x, y in zip(a[3:], b[3:]))
    if a[0] == "dict":
        return a[1].keys() == b[1].keys() and all(same(a[1][k], b[1][k]) for k in a[1])
    if a[0] in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    try:
        r = a[1] == b[1]
        if isinstance(r, bool) and not r and a[1] != a[1] and b[1] != b[1]:
            return True
        return bool(r) and type(a[1]) is type(b[1])
    except Exception:
        return a[1] is b[1]


CACHES = ("_user_norms", "_item_norms", "_YtY", "_XtX", "scorer")


def model_state(m):
    return snapshot({k: v for k, v in vars(m).items() if k not in CACHES})


def make_mf(cls, X, Y, num_threads=0, **kw):
    """a factor model holding the given factors"""
    from implicit.cpu.als import AlternatingLeastSquares
    from implicit.cpu.bpr import BayesianPersonalizedRanking
    from implicit.cpu.lmf import LogisticMatrixFactorization
    c = {"als": AlternatingLeastSquares, "bpr": BayesianPersonalizedRanking,
         "lmf": LogisticMatrixFactorization}[cls]
    f = X.shape[1] if X is not None else 4
    extra = {"als": 0, "bpr": 1, "lmf": 2}[cls]
    m = c(factors=max(1, f - extra), num_threads=num_threads,
          dtype=X.dtype if X is not None else np.float32, **kw)
    if X is not None:
        m.user_factors, m.item_factors = X, Y
    return m


def dense_scores(X, Y):
    return X.astype(np.float64) @ Y.astype(np.float64).T


def as_kind(kind, a):
    """the same ids as list / array of several dtypes"""
    a = [int(v) for v in a]
    return {"list": a, "int32": np.array(a, dtype=np.int32), "int64": np.array(a, dtype=np.int64),
            "tuple": tuple(a)}[kind]


def row_entries(m, u):
    return m.indices[m.indptr[u]:m.indptr[u + 1]], m.data[m.indptr[u]:m.indptr[u + 1]]


def fresh(**kw):
    return kw


def expect_raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Broken:
        raise
    except Exception as e:  # noqa
        raise Broken("%s: raised %s(%s), expected %s" % (what, type(e).__name__, str(e)[:150], exc))
    raise Broken("%s: no exception, expected %s" % (what, exc))
