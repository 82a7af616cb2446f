"""Models of numpy / scipy.sparse / Python builtins (trusted base): their documented meaning over mathematical numbers.

An indexing operation whose indices are not provably in range splits into the case where they are and the case that raises
IndexError (numpy's behaviour); accesses through Cython memoryviews, which are not checked at run time, become bounds
obligations instead."""
from fractions import Fraction

import interp as I
from interp import (Arr, Builtin, Cell, ClsV, DType, FuncV, H, ModV, Poison, Ptr, PyRaise, Ref, SliceV, Unsupported, is_scalar, lift)
from terms import *  # noqa
import terms as tm
import prover as pv
from prover import decide

ZERO_R = ZERO


def W():
    import world
    return world


# ---------------------------------------------------------------- helpers
def kwget(args, kw, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kw.get(name, default)


def dims(ip, v):
    if is_scalar(v):
        return (lift(v),)
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, H) and v.kind == "list":
        return tuple(lift(x) for x in ip.st.heap[v.id])
    raise Unsupported("shape argument")


def nonneg(ip, n):
    """numpy rejects negative dimensions"""
    d = decide(ip.hyps(), le(ZERO, n))
    if d is True:
        return
    if d is False:
        raise PyRaise("ValueError")
    if ip.choose(2) == 0:
        ip.path(le(ZERO, n))
    else:
        ip.path(lt(n, ZERO))
        raise PyRaise("ValueError")


def meta_dt(d):
    d = W().dtype_of(d)
    return {"dtype": d} if d is not None else None


def filled(value, default_dt="R"):
    def f(ip, a, kw):
        sh = dims(ip, a[0])
        for n in sh:
            nonneg(ip, n)
        d = kwget(a, kw, 1, "dtype")
        s = W().dt_sort(d, default_dt) if d is not None else default_dt
        v = {"B": T_(bool(value))}.get(s, num(value))
        return ip.array(sh, lambda *ix: v, s, meta=meta_dt(d) or {"dtype": DType("float64")})
    return f


def np_empty(ip, a, kw):
    """uninitialised memory: any value"""
    sh = dims(ip, a[0])
    for n in sh:
        nonneg(ip, n)
    d = kwget(a, kw, 1, "dtype")
    s = W().dt_sort(d, "R") if d is not None else "R"
    f = ip.nm("garbage!")
    return ip.array(sh, lambda *ix: app(f, *ix, sort=s), s, meta=meta_dt(d) or {"dtype": DType("float64")})


def np_full(ip, a, kw):
    sh = dims(ip, a[0])
    for n in sh:
        nonneg(ip, n)
    v = lift(a[1])
    return ip.array(sh, lambda *ix: v, v.sort)


def np_eye(ip, a, kw):
    n = lift(a[0])
    nonneg(ip, n)
    return ip.array((n, n), lambda i, j: ite(eq(i, j), ONE, ZERO), "R", meta=meta_dt(kwget(a, kw, 3, "dtype")))


def np_arange(ip, a, kw):
    if len(a) == 1:
        lo, hi = ZERO, lift(a[0])
    else:
        lo, hi = lift(a[0]), lift(a[1])
    n = sub(hi, lo)
    if decide(ip.hyps(), le(ZERO, n)) is not True:
        n = max_(n, ZERO)
    return ip.array((n,), lambda i: add(lo, i), "I")


def copy_arr(ip, a, dt=None, meta=None, cls="ndarray"):
    e = ip.elem(a)
    c = ip.st.heap[a.cell]
    return ip.array(a.shape, lambda *ix: e(*ix), dt or c.dt, c.name, meta=meta if meta is not None else c.meta)


def np_array(ip, a, kw, copy=True):
    v = a[0]
    d = kwget(a, kw, 1, "dtype")
    if isinstance(v, H) and v.kind == "list" and hasattr(ip.st.heap[v.id], "as_array"):
        return ip.st.heap[v.id].as_array(ip, v)
    if isinstance(v, Arr):
        if not copy and d is None:
            return v
        return astype(ip, [v, d], {}) if d is not None else copy_arr(ip, v)
    if isinstance(v, (tuple,)) or (isinstance(v, H) and v.kind == "list"):
        xs = list(v) if isinstance(v, tuple) else ip.st.heap[v.id]
        if xs and all(isinstance(x, Arr) for x in xs):
            return np_stack(ip, [v], {})
    if isinstance(v, W().CompV):
        v = tuple(ip.w.comp_list(ip, v))
    return ip.w.as_array(ip, v, W().dt_sort(d, None) if d is not None else None)


def np_stack(ip, a, kw):
    v = a[0]
    xs = list(v) if isinstance(v, tuple) else list(ip.st.heap[v.id])
    xs = [x if isinstance(x, Arr) else ip.w.as_array(ip, x) for x in xs]
    els = [ip.elem(x) for x in xs]

    def f(i, *ix):
        r = els[-1](*ix)
        for n in range(len(els) - 2, -1, -1):
            r = ite(eq(i, num(n)), els[n](*ix), r)
        return r
    dt = "R" if any(ip.cell(x).dt == "R" for x in xs) else ip.cell(xs[0]).dt
    return ip.array((num(len(xs)),) + xs[0].shape, f, dt)


def astype(ip, a, kw):
    v = a[0]
    d = kwget(a, kw, 1, "dtype")
    c = ip.cell(v)
    s = W().dt_sort(d, c.dt)
    e = ip.elem(v)
    if s == "I" and c.dt == "R":
        fn = lambda *ix: app("trunc", e(*ix), sort="I")
    elif s == "B" and c.dt != "B":
        fn = lambda *ix: ne(e(*ix), ZERO)
    elif s != "B" and c.dt == "B":
        fn = lambda *ix: ite(e(*ix), ONE, ZERO)
    else:
        fn = lambda *ix: e(*ix)
    return ip.array(v.shape, fn, s, c.name, meta=meta_dt(d) or c.meta)


def transpose(ip, a, kw):
    v = a[0]
    if ip.w.is_sparse(v):
        return sparse_transpose(ip, v)
    n = v.ndim
    maps = [(c, tuple((n - 1 - ax, k) for ax, k in ds)) for c, ds in v.maps]
    return Arr(v.cell, tuple(reversed(v.shape)), maps, v.cls)


def need_dim(ip, x, y):
    if ip.w.dims_equal(ip, x, y):
        return
    d = decide(ip.hyps(), eq(x, y))
    if d is False:
        raise PyRaise("ValueError")
    if ip.choose(2) == 0:
        ip.path(eq(x, y))
    else:
        ip.path(ne(x, y))
        raise PyRaise("ValueError")


def np_dot(ip, a, kw):
    x, y = a[0], a[1]
    if is_scalar(x) or is_scalar(y):
        return ip.w.binop(ip, "*", x, y)
    if ip.w.is_sparse(x) or ip.w.is_sparse(y):
        return sparse_dot(ip, x, y)
    x, y = ip.w.as_array(ip, x), ip.w.as_array(ip, y)
    ex, ey = ip.elem(x), ip.elem(y)
    if x.ndim == 1 and y.ndim == 1:
        need_dim(ip, x.shape[0], y.shape[0])
        k = tm.fresh("k")
        return mk_sum(k, ZERO, x.shape[0], mul(ex(k), ey(k)))
    if y.ndim == 1:
        need_dim(ip, x.shape[-1], y.shape[0])

        def f(*ix):
            k = tm.fresh("k")
            return mk_sum(k, ZERO, x.shape[-1], mul(ex(*ix, k), ey(k)))
        r = ip.array(x.shape[:-1], f, "R")
        return name_vec(ip, [r], {}) if ip.naming else r
    if y.ndim == 2 and x.ndim in (1, 2):
        need_dim(ip, x.shape[-1], y.shape[0])

        def f(*ix):
            k = tm.fresh("k")
            return mk_sum(k, ZERO, x.shape[-1], mul(ex(*ix[:-1], k), ey(k, ix[-1])))
        return ip.array(x.shape[:-1] + (y.shape[1],), f, "R")
    raise Unsupported("dot of these shapes")


def name_vec(ip, a, kw):
    """a name for a vector whose definition would otherwise be expanded everywhere"""
    r = a[0]
    c = ip.cell(r)
    if ip.naming and isinstance(r, Arr) and r.ndim == 1 and len(c.shape) == 1:
        ip.st.heap[r.cell] = c.with_body(c.vars, pv.name_vector(c.vars, c.body))
    return r


def np_outer(ip, a, kw):
    x, y = ip.elem(a[0]), ip.elem(a[1])
    return ip.array((a[0].shape[0], a[1].shape[0]), lambda i, j: mul(x(i), y(j)), "R")


def reduce_sum(ip, a, kw):
    v = a[0]
    if ip.w.is_sparse(v):
        return sparse_sum(ip, v, kwget(a, kw, 1, "axis"))
    if isinstance(v, W().CompV) or not isinstance(v, Arr):
        xs = ip.w.listing(ip, v)
        r = lift(kwget(a, kw, 1, "start", 0))
        for x in xs:
            r = add(r, W().b2(lift(x)))
        return W().simple(r)
    axis = kwget(a, kw, 1, "axis")
    e = ip.elem(v)
    nb = lambda t: ite(t, ONE, ZERO) if t.sort == "B" else t
    if axis is None:
        ks = [tm.fresh("k") for _ in v.shape]
        t = nb(e(*ks))
        for k, n in zip(reversed(ks), reversed(v.shape)):
            t = mk_sum(k, ZERO, n, t)
        return W().simple(t)
    ax = int(lift(axis).args[0]) % v.ndim
    sh = v.shape[:ax] + v.shape[ax + 1:]

    def f(*ix):
        k = tm.fresh("k")
        return mk_sum(k, ZERO, v.shape[ax], nb(e(*(ix[:ax] + (k,) + ix[ax:]))))
    if not sh:
        return W().simple(f())
    return ip.array(sh, f, "R" if ip.cell(v).dt == "R" else "I")


def reduce_mean(ip, a, kw):
    v = a[0]
    axis = kwget(a, kw, 1, "axis")
    s = reduce_sum(ip, a, kw)
    if axis is None:
        n = ONE
        for d in v.shape:
            n = mul(n, d)
        return div(lift(s), n)
    ax = int(lift(axis).args[0]) % v.ndim
    return ip.w.binop(ip, "/", s, v.shape[ax])


def norm(ip, a, kw):
    v = a[0]
    axis = kwget(a, kw, 2, "axis")
    e = ip.elem(v)
    if v.ndim == 1 and axis is None:
        k = tm.fresh("k")
        return app("sqrt", mk_sum(k, ZERO, v.shape[0], mul(e(k), e(k))))
    if axis is None:
        raise Unsupported("norm of a matrix")
    ax = int(lift(axis).args[0]) % v.ndim
    sh = v.shape[:ax] + v.shape[ax + 1:]

    def f(*ix):
        k = tm.fresh("k")
        x = e(*(ix[:ax] + (k,) + ix[ax:]))
        return app("sqrt", mk_sum(k, ZERO, v.shape[ax], mul(x, x)))
    if not sh:
        return f()
    return ip.array(sh, f, "R")


def ufunc(fn, dt="R"):
    def f(ip, a, kw):
        v = a[0]
        if is_scalar(v):
            return W().simple(fn(lift(v)))
        if isinstance(v, H) and v.kind == "list":
            v = ip.w.as_array(ip, v)
        return ip.w.elementwise(ip, fn, [v], dt)
    return f


def ufunc2(fn, dt=None):
    def f(ip, a, kw):
        if is_scalar(a[0]) and is_scalar(a[1]):
            return W().simple(fn(lift(a[0]), lift(a[1])))
        return ip.w.elementwise(ip, fn, [a[0], a[1]], dt)
    return f


def extremum(ip, v, big):
    """max / min of a non-empty 1-d array: a value that occurs and bounds all the others"""
    if is_scalar(v):
        return v
    if not isinstance(v, Arr):
        raise Unsupported("maximum of %s" % type(v).__name__)
    e = ip.elem(v)
    tot = ONE
    for n in v.shape:
        tot = mul(tot, n)
    d = decide(ip.hyps(), lt(ZERO, tot))
    if d is not True:
        if d is False:
            raise PyRaise("ValueError")
        if ip.choose(2) == 0:
            ip.path(and_(*[lt(ZERO, n) for n in v.shape]))
        else:
            ip.path(or_(*[le(n, ZERO) for n in v.shape]))
            raise PyRaise("ValueError")
    ks = [tm.fresh("k") for _ in v.shape]
    lam = mk_lam(ks, ite(and_(*[and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, v.shape)]), e(*ks), ZERO))
    pos = [app("arg%s%d" % ("max" if big else "min", d), lam, *v.shape, sort="I") for d in range(v.ndim)]
    m = e(*pos)
    for p, n in zip(pos, v.shape):
        ip.assume(and_(le(ZERO, p), lt(p, n)))
    inr = and_(*[and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, v.shape)])
    ip.assume(forall(ks, implies(inr, le(e(*ks), m) if big else le(m, e(*ks)))))
    return m


def builtin_minmax(big):
    def f(ip, a, kw):
        if len(a) >= 2:
            r = lift(a[0])
            for x in a[1:]:
                r = max_(r, lift(x)) if big else min_(r, lift(x))
            return W().simple(r)
        v = a[0]
        if isinstance(v, Arr):
            return extremum(ip, v, big)
        if isinstance(v, H) and v.kind == "list" and hasattr(ip.st.heap[v.id], "as_array"):
            return extremum(ip, ip.st.heap[v.id].as_array(ip, v), big)
        xs = ip.w.listing(ip, v)
        if not xs:
            raise PyRaise("ValueError")
        return f(ip, list(xs), kw) if len(xs) > 1 else xs[0]
    return f


def any_(ip, a, kw):
    v = a[0]
    if not isinstance(v, Arr):
        return W().simple(or_(*[T_(ip.w.truthy(ip, x)) for x in ip.w.listing(ip, v)]))
    e = ip.elem(v)
    ks = [tm.fresh("k") for _ in v.shape]
    t = e(*ks)
    t = t if t.sort == "B" else ne(t, ZERO)
    return W().simple(exists(ks, and_(t, *[and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, v.shape)])))


def all_(ip, a, kw):
    v = a[0]
    if not isinstance(v, Arr):
        return W().simple(and_(*[T_(ip.w.truthy(ip, x)) for x in ip.w.listing(ip, v)]))
    e = ip.elem(v)
    ks = [tm.fresh("k") for _ in v.shape]
    t = e(*ks)
    t = t if t.sort == "B" else ne(t, ZERO)
    return W().simple(forall(ks, implies(and_(*[and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, v.shape)]), t)))


def reshape(ip, a, kw):
    v = a[0]
    sh = dims(ip, a[1]) if len(a) == 2 else tuple(lift(x) for x in a[1:])
    if v.ndim == 1 and len(sh) == 2:
        if isnum(sh[0], 1):
            need_dim(ip, sh[1], v.shape[0]) if not isnum(sh[1], -1) else None
            return insert_axis(v, 0)
        if isnum(sh[1], 1):
            need_dim(ip, sh[0], v.shape[0]) if not isnum(sh[0], -1) else None
            return insert_axis(v, 1)
    if v.ndim == 2 and len(sh) == 1 and isnum(sh[0], -1):
        return np_ravel(ip, [v], {})
    if len(sh) == v.ndim and all(ip.w.dims_equal(ip, x, y) for x, y in zip(sh, v.shape)):
        return v
    raise Unsupported("reshape")


def insert_axis(v, at):
    sh = v.shape[:at] + (ONE,) + v.shape[at:]
    maps = [(c, tuple((ax + (1 if ax >= at else 0), k) for ax, k in ds)) for c, ds in v.maps]
    return Arr(v.cell, sh, maps, v.cls)


def np_ravel(ip, a, kw):
    v = a[0]
    if is_scalar(v):
        return ip.array((ONE,), lambda i: lift(v), lift(v).sort)
    if not isinstance(v, Arr):
        v = ip.w.as_array(ip, v)
    if v.ndim == 1:
        return v
    if v.ndim == 0:
        return ip.array((ONE,), lambda i: ip.get(v, ()), ip.cell(v).dt)
    if v.ndim == 2:
        for d in (0, 1):
            if v.shape[d] is ONE or ip.truth(eq(v.shape[d], ONE)):
                f = ip.elem(v)
                return ip.array((v.shape[1 - d],),
                                (lambda i: f(ZERO, i)) if d == 0 else (lambda i: f(i, ZERO)),
                                ip.cell(v).dt)
    raise Unsupported("ravel of a matrix")


def concat(ip, a, kw):
    v = a[0]
    xs = list(v) if isinstance(v, tuple) else list(ip.st.heap[v.id])
    axis = kwget(a, kw, 1, "axis", 0)
    xs = [x if isinstance(x, Arr) else ip.w.as_array(ip, x) for x in xs]
    ax = int(lift(axis).args[0]) % xs[0].ndim
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise PyRaise("ValueError")
        for d in range(x.ndim):
            if d != ax:
                need_dim(ip, xs[0].shape[d], x.shape[d])
    els = [ip.elem(x) for x in xs]
    offs = [ZERO]
    for x in xs:
        offs.append(add(offs[-1], x.shape[ax]))

    def f(*ix):
        r = None
        for n in range(len(xs) - 1, -1, -1):
            t = els[n](*(ix[:ax] + (sub(ix[ax], offs[n]),) + ix[ax + 1:]))
            r = t if r is None else ite(lt(ix[ax], offs[n + 1]), t, r)
        return r
    dts = {ip.cell(x).dt for x in xs}
    dt = "R" if "R" in dts else dts.pop()
    return ip.array(xs[0].shape[:ax] + (offs[-1],) + xs[0].shape[ax + 1:], f, dt, ip.cell(xs[0]).name, meta=ip.cell(xs[0]).meta)


def np_append(ip, a, kw):
    axis = kwget(a, kw, 2, "axis")
    xs = []
    for x in a[:2]:
        if is_scalar(x):
            t = lift(x)
            x = ip.array((ONE,), lambda i, t=t: t, t.sort)
        elif not isinstance(x, Arr):
            x = np_array(ip, [x], {})
        xs.append(x)
    if axis is None:
        if any(x.ndim != 1 for x in xs):
            raise Unsupported("append of matrices without an axis")
        axis = 0
    return concat(ip, [tuple(xs)], {"axis": axis})


def ediff1d(ip, a, kw):
    v = a[0]
    e = ip.elem(v)
    return ip.array((sub(v.shape[0], ONE),), lambda i: sub(e(add(i, ONE)), e(i)), ip.cell(v).dt)


def bincount(ip, a, kw):
    v = a[0]
    n = kwget(a, kw, 2, "minlength")
    w = kwget(a, kw, 1, "weights")
    e = ip.elem(v)
    if n is None:
        empty = decide(ip.hyps(), le(v.shape[0], ZERO))
        if empty is None:
            empty = ip.choose(2) == 1
            ip.path(le(v.shape[0], ZERO) if empty else lt(ZERO, v.shape[0]))
        n = ZERO if empty else add(extremum(ip, v, True), ONE)
    else:
        n = lift(n)
        # longer only if a value reaches beyond minlength
        k = tm.fresh("k")
        big = exists([k], and_(le(ZERO, k), lt(k, v.shape[0]), le(n, e(k))))
        if decide(ip.hyps(), big) is not False:
            raise Unsupported("bincount beyond minlength")
    ew = ip.elem(w) if isinstance(w, Arr) else None

    def f(i):
        k = tm.fresh("k")
        return mk_sum(k, ZERO, v.shape[0], ite(eq(e(k), i), ew(k) if ew else ONE, ZERO))
    return ip.array((n,), f, "R" if ew else "I")


def where(ip, a, kw):
    return ip.w.elementwise(ip, lambda c, x, y: ite(c if c.sort == "B" else ne(c, ZERO), x, y), a[:3])


def finfo(ip, a, kw):
    t = a[0]
    nm = t.name if isinstance(t, DType) else t if isinstance(t, str) else "?"
    v = var("FMAX" if nm in ("float32", "?") or nm.startswith("?") else "FMAX_" + nm, "R")
    ip.assume(lt(num(1000000), v))
    return ip.alloc({"max": v, "min": neg(v), "eps": var("FEPS", "R")}, "obj", ClsV("finfo", None, "ext"))


def isscalar(ip, a, kw):
    v = a[0]
    if isinstance(v, (bool, int, Fraction, float, T, str)):
        return True
    return False


def np_dtype(ip, a, kw):
    d = a[0]
    if isinstance(d, DType):
        return d
    r = W().dtype_of(d)
    if r is None:
        raise Unsupported("dtype")
    return r


def np_solve(ip, a, kw):
    A, b = a[:2]
    n = A.shape[0]
    need_dim(ip, A.shape[1], n)
    need_dim(ip, b.shape[0], n)
    import lib_c
    M, v = ip.elem(A), ip.elem(b)
    f0 = tm.fresh("f")
    _, info = lib_c.solve_term(n, M, v, f0)
    # a singular matrix raises
    c = eq(info, ZERO)
    if decide(ip.hyps(), c) is not True:
        if ip.choose(2) == 0:
            ip.path(c)
        else:
            ip.path(not_(c))
            raise PyRaise("LinAlgError")
    return ip.array((n,), lambda f: lib_c.solve_term(n, M, v, f)[0], "R")


# ---------------------------------------------------------------- masks
def mask_lam(n, e):
    k = tm.fresh("k")
    t = e(k)
    t = t if t.sort == "B" else ne(t, ZERO)
    return mk_lam((k,), ite(and_(le(ZERO, k), lt(k, n), t), ONE, ZERO))


def mask_positions(ip, n, e):
    """positions of the true entries of a boolean vector: (count, pos function, rank function)"""
    k = tm.fresh("k")
    t = lambda i: (lambda x: x if x.sort == "B" else ne(x, ZERO))(e(i))
    cnt = mk_sum(k, ZERO, n, ite(t(k), ONE, ZERO))
    lam = mask_lam(n, e)
    pos = lambda i: app("mpos", lam, n, i, sort="I")
    rank = lambda i: app("mrank", lam, n, i, sort="I")
    key = ("mask", lam.id, n.id)
    i, j = tm.fresh("i"), tm.fresh("j")
    c = ip.w.named(ip, cnt) if cnt.op not in ("num", "var") else cnt
    if ip.w.__dict__.get("pigeonhole") and cnt.op not in ("num", "var"):
        c = app("mcount", lam, n, sort="I")
    ip.assume(and_(le(ZERO, c), le(c, max_(n, ZERO))))
    ip.assume(forall([i], implies(and_(le(ZERO, i), lt(i, c)), and_(le(ZERO, pos(i)), lt(pos(i), n), t(pos(i)), eq(rank(pos(i)), i)))))
    ip.assume(forall([i], implies(and_(le(ZERO, i), lt(i, n), t(i)), and_(le(ZERO, rank(i)), lt(rank(i), c), eq(pos(rank(i)), i)))))
    ip.assume(forall([i, j], implies(and_(le(ZERO, i), lt(i, j), lt(j, c)), lt(pos(i), pos(j)))))
    return c, pos, rank


# ---------------------------------------------------------------- indexing
def is_mask(ip, x):
    return isinstance(x, Arr) and ip.cell(x).dt == "B"


def norm_index(ip, i, n, check=True):
    """position for a Python index into a dimension of n: wraps negative ones, raises IndexError outside"""
    i = lift(i)
    if i.sort == "B":
        i = ite(i, ONE, ZERO)
    if i.sort != "I":
        raise PyRaise("IndexError")
    h = ip.hyps()
    if decide(h, and_(le(ZERO, i), lt(i, n))) is True:
        return i
    if decide(h, and_(lt(i, ZERO), le(neg(n), i))) is True:
        return add(i, n)
    alts = []
    for c, v in ((and_(le(ZERO, i), lt(i, n)), i), (and_(lt(i, ZERO), le(neg(n), i)), add(i, n)), (or_(lt(i, neg(n)), le(n, i)), None)):
        if decide(h, c) is not False:
            alts.append((c, v))
    k = ip.choose(len(alts)) if len(alts) > 1 else 0
    ip.path(alts[k][0])
    if alts[k][1] is None:
        raise PyRaise("IndexError")
    return alts[k][1]


def norm_indices(ip, e, m, n):
    """element function of an index array of length m into a dimension of n"""
    k = tm.fresh("k")
    h = ip.hyps()
    inr = and_(le(ZERO, k), lt(k, m))
    x = e(k)
    if decide(h + (le(ZERO, k), lt(k, m)), and_(le(ZERO, x), lt(x, n))) is True:
        return e
    ok = forall([k], implies(inr, and_(le(neg(n), x), lt(x, n))))
    if decide(h, ok) is not True:
        if ip.choose(2) == 0:
            ip.path(ok)
        else:
            ip.path(not_(ok))
            w = ip.new("bad_index")
            ip.path(and_(le(ZERO, w), lt(w, m), or_(lt(e(w), neg(n)), le(n, e(w)))))
            raise PyRaise("IndexError")
    if decide(ip.hyps() + (le(ZERO, k), lt(k, m)), le(ZERO, x)) is True:
        return e
    return lambda i: (lambda y: ite(lt(y, ZERO), add(y, n), y))(e(i))


def clamp(ip, v, n, default):
    if v is None:
        return default
    t = lift(v)
    h = ip.hyps()
    if t.op == "num" and t.args[0] < 0:
        t = add(n, t)
        return t if decide(h, le(ZERO, t)) is True else max_(t, ZERO)
    if decide(h, le(ZERO, t)) is not True:
        if decide(h, lt(t, ZERO)) is True:
            t = max_(add(n, t), ZERO)
            return t
        t = ite(lt(t, ZERO), max_(add(n, t), ZERO), t)
    if decide(h, le(t, n)) is True:
        return t
    if decide(h, le(n, t)) is True:
        return n
    return min_(t, n)


def expand(ip, o, ix):
    ixs = list(ix) if isinstance(ix, tuple) else [ix]
    if any(x is Ellipsis for x in ixs):
        raise Unsupported("ellipsis")
    return ixs


def view(ip, o, ixs):
    """basic indexing: (Arr, None) or (None, scalar index list)"""
    memview = o.cls == "memview"
    nd = o.ndim
    used = sum(1 for x in ixs if x is not None)
    if used > nd:
        raise PyRaise("IndexError")
    ixs = list(ixs) + [SliceV(None, None, None)] * (nd - used)
    shape, binds = [], []                # binds[axis of o] = (const, new axis or None, step)
    ax = 0
    for x in ixs:
        if x is None:
            shape.append(ONE)
            continue
        n = o.shape[ax]
        if isinstance(x, SliceV):
            st = 1 if x.step is None else ip.w.concrete(x.step)
            if st == 1:
                lo = clamp(ip, x.lo, n, ZERO)
                hi = clamp(ip, x.hi, n, n)
                ln = sub(hi, lo)
                if lo is not ZERO or hi is not n:
                    if decide(ip.hyps(), le(ZERO, ln)) is not True:
                        ln = max_(ln, ZERO)
                binds.append((lo, len(shape), ONE))
                shape.append(ln)
            elif st == -1 and x.lo is None and x.hi is None:
                binds.append((sub(n, ONE), len(shape), num(-1)))
                shape.append(n)
            else:
                raise Unsupported("strided slice")
        else:
            if memview:
                i = lift(x)
                ip.oblige("%s index of %s stays inside" % (ip.where(), ip.cell(o).name or "a buffer"), and_(le(ZERO, i), lt(i, n)), "bounds")
            else:
                i = norm_index(ip, x, n)
            binds.append((i, None, ONE))
        ax += 1
    maps = []
    for c, ds in o.maps:
        k, nds = c, []
        for a, f in ds:
            b0, na, st = binds[a]
            k = add(k, mul(f, b0))
            if na is not None:
                nds.append((na, mul(f, st)))
        maps.append((k, tuple(nds)))
    return Arr(o.cell, shape, maps, o.cls)


def scalar_at(ip, v):
    c = ip.cell(v)
    return W().simple(c.at([m[0] for m in v.maps]))


def as_index_arr(ip, x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, H) and x.kind == "list":
        return np_array(ip, [x], {})
    return None


def arr_getitem(w, ip, o, ix):
    ixs = expand(ip, o, ix)
    fancy = [k for k, x in enumerate(ixs) if isinstance(x, (Arr, H))]
    if not fancy:
        v = view(ip, o, ixs)
        if v.ndim == 0 and o.ndim - sum(1 for x in ixs if x is not None) == 0:
            return scalar_at(ip, v)
        return v
    if len(fancy) > 1:
        raise Unsupported("several index arrays")
    pos = fancy[0]
    idx = as_index_arr(ip, ixs[pos])
    if idx is None:
        raise Unsupported("index")
    if is_mask(ip, idx):
        if idx.ndim == 2 and len(ixs) == 1:
            raise Unsupported("matrix mask")
        need_dim(ip, idx.shape[0], o.shape[pos])
        cnt, mp, rk = mask_positions(ip, idx.shape[0], ip.elem(idx))
        ishape, at = (cnt,), lambda i: mp(i)
        o1 = o
    else:
        if idx.ndim == 0:
            return arr_getitem(w, ip, o, tuple(ixs[:pos]) + (scalar_at(ip, idx),) + tuple(ixs[pos + 1:]))
        if idx.ndim == 1:
            e = norm_indices(ip, ip.elem(idx), idx.shape[0], o.shape[pos])
            at = e
        else:
            ee = ip.elem(idx)
            ks = [tm.fresh("k") for _ in idx.shape]
            inr = [and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, idx.shape)]
            x = ee(*ks)
            if decide(ip.hyps() + tuple(inr), and_(le(ZERO, x), lt(x, o.shape[pos]))) is not True:
                ok = forall(ks, implies(and_(*inr), and_(le(ZERO, x), lt(x, o.shape[pos]))))
                if ip.choose(2) == 0:
                    ip.path(ok)
                else:
                    ip.path(not_(ok))
                    raise Unsupported("matrix of indices out of range")
            at = ee
        ishape = idx.shape
    # other axes by basic indexing
    rest = [SliceV(None, None, None) if k == pos else x for k, x in enumerate(ixs)]
    base = view(ip, o, rest)
    # axis of the fancy index in the base view
    ax = sum(1 for k, x in enumerate(rest[:pos]) if isinstance(x, SliceV) or x is None)
    e0 = ip.elem(base)
    shape = base.shape[:ax] + tuple(ishape) + base.shape[ax + 1:]
    m = len(ishape)
    c = ip.cell(o)
    return ip.array(shape, lambda *k: e0(*(k[:ax] + (at(*k[ax:ax + m]),) + k[ax + m:])), c.dt, c.name, meta=c.meta)


def value_fn(ip, v, shape):
    """element function of a value broadcast to a shape"""
    if is_scalar(v):
        t = lift(v)
        return lambda *ix: t
    if not isinstance(v, Arr):
        v = np_array(ip, [v], {})
    if v.ndim > len(shape):
        if all(isnum(s, 1) for s in v.shape[:v.ndim - len(shape)]):
            e1 = ip.elem(v)
            k = v.ndim - len(shape)
            e = lambda *ix: e1(*((ZERO,) * k + ix))
            vs = v.shape[k:]
        else:
            raise PyRaise("ValueError")
    else:
        e, vs = ip.elem(v), v.shape
    off = len(shape) - len(vs)
    for d, n in enumerate(vs):
        if not isnum(n, 1):
            need_dim(ip, n, shape[off + d])
    return lambda *ix: e(*[ZERO if isnum(n, 1) and not isnum(shape[off + d], 1) else ix[off + d] for d, n in enumerate(vs)])


def writable(ip, o):
    c = ip.cell(o)
    if c.meta and c.meta.get("readonly"):
        raise PyRaise("ValueError")


def arr_setitem(w, ip, o, ix, v):
    ixs = expand(ip, o, ix)
    fancy = [k for k, x in enumerate(ixs) if isinstance(x, (Arr, H))]
    writable(ip, o)
    if not fancy:
        t = view(ip, o, ixs)
        if t.ndim == 0:
            if isinstance(v, Arr):
                v = scalar_at(ip, v) if v.ndim == 0 else (ip.get(v, [ZERO] * v.ndim, False) if all(isnum(s, 1) for s in v.shape) else None)
                if v is None:
                    raise PyRaise("ValueError")
            ip.store(o.cell, [m[0] for m in t.maps], lift(v))
            return
        f = value_fn(ip, v, t.shape)
        ip.fill(t, f)
        return
    if len(fancy) > 1:
        raise Unsupported("several index arrays")
    pos = fancy[0]
    idx = as_index_arr(ip, ixs[pos])
    rest = [SliceV(None, None, None) if k == pos else x for k, x in enumerate(ixs)]
    base = view(ip, o, rest)
    ax = sum(1 for k, x in enumerate(rest[:pos]) if isinstance(x, SliceV) or x is None)
    n = base.shape[ax]
    old = ip.elem(base)
    if is_mask(ip, idx):
        if idx.ndim == o.ndim == base.ndim and idx.ndim == 2:
            e = ip.elem(idx)
            if not is_scalar(v):
                raise Unsupported("matrix mask with an array of values")
            ip.fill(base, lambda *k: ite(e(*k), lift(v), old(*k)))
            return
        need_dim(ip, idx.shape[0], n)
        e = ip.elem(idx)
        if is_scalar(v):
            val = lambda *k: lift(v)
        else:
            va = v if isinstance(v, Arr) else np_array(ip, [v], {})
            if va.ndim == base.ndim - 1 and ax == 0:
                f = value_fn(ip, va, base.shape[1:])
                val = lambda *k: f(*k[1:])
            elif va.ndim == base.ndim:
                cnt, mp, rk = mask_positions(ip, idx.shape[0], e)
                f = value_fn(ip, va, base.shape[:ax] + (cnt,) + base.shape[ax + 1:])
                val = lambda *k: f(*(k[:ax] + (rk(k[ax]),) + k[ax + 1:]))
            else:
                raise Unsupported("mask assignment")
        ip.fill(base, lambda *k: ite(e(k[ax]), val(*k), old(*k)))
        return
    if idx.ndim != 1:
        raise Unsupported("assignment through a matrix of indices")
    m = idx.shape[0]
    at = norm_indices(ip, ip.elem(idx), m, n)
    t = tm.fresh("t")
    hit = lambda r: exists([t], and_(le(ZERO, t), lt(t, m), eq(at(t), r)))
    if is_scalar(v):
        ip.fill(base, lambda *k: ite(hit(k[ax]), lift(v), old(*k)))
        return
    f = value_fn(ip, v, base.shape[:ax] + (m,) + base.shape[ax + 1:])
    kk = tm.fresh("k")
    lam = mk_lam((kk,), ite(and_(le(ZERO, kk), lt(kk, m)), at(kk), num(-1)))
    last = lambda r: app("lastpos", lam, m, r, sort="I")
    r = tm.fresh("r")
    s = tm.fresh("s")
    ip.assume(forall([r, t], implies(and_(le(ZERO, t), lt(t, m), eq(at(t), r)),
                                     and_(le(t, last(r)), lt(last(r), m), eq(at(last(r)), r)))))
    ip.fill(base, lambda *k: ite(hit(k[ax]), f(*(k[:ax] + (last(k[ax]),) + k[ax + 1:])), old(*k)))


# ---------------------------------------------------------------- sorting
def np_sort_inplace(ip, a, kw):
    """a.sort(): a permutation in ascending order"""
    v = a[0]
    if v.ndim != 1 or kw:
        raise Unsupported("sort")
    r = sorted_copy(ip, v)
    e = ip.elem(r)
    ip.fill(v, lambda i: e(i))
    return None


def np_sort(ip, a, kw):
    v = a[0] if isinstance(a[0], Arr) else np_array(ip, [a[0]], {})
    if v.ndim != 1 or kw or len(a) > 1:
        raise Unsupported("sort options")
    return sorted_copy(ip, v)


def perm_terms(ip, v, what="sortperm"):
    e = ip.elem(v)
    n = v.shape[0]
    k = tm.fresh("k")
    lam = mk_lam((k,), ite(and_(le(ZERO, k), lt(k, n)), e(k), ZERO))
    p = lambda i: app(what, lam, n, i, sort="I")
    q = lambda i: app(what + "_inv", lam, n, i, sort="I")
    i, j = tm.fresh("i"), tm.fresh("j")
    inr = lambda x: and_(le(ZERO, x), lt(x, n))
    ip.assume(forall([i], implies(inr(i), and_(inr(p(i)), eq(q(p(i)), i)))))
    ip.assume(forall([i], implies(inr(i), and_(inr(q(i)), eq(p(q(i)), i)))))
    ip.assume(forall([i, j], implies(and_(le(ZERO, i), le(i, j), lt(j, n)), le(e(p(i)), e(p(j))))))
    return p, q


def sorted_copy(ip, v):
    p, q = perm_terms(ip, v)
    e = ip.elem(v)
    return ip.array(v.shape, lambda i: e(p(i)), ip.cell(v).dt, meta=ip.cell(v).meta)


def np_argsort(ip, a, kw):
    v = a[0]
    if v.ndim != 1 or kw or len(a) > 1:
        raise Unsupported("argsort of a matrix")
    p, q = perm_terms(ip, v)
    return ip.array(v.shape, lambda i: p(i), "I")


def searchsorted(ip, a, kw):
    s, v = a[:2]
    if len(a) > 2 or any(k != "side" or x != "left" for k, x in kw.items()):
        raise Unsupported("searchsorted options")
    es = ip.elem(s)
    n = s.shape[0]
    # precondition of the binary search: s is sorted
    i, j = tm.fresh("i"), tm.fresh("j")
    ip.oblige("%s searchsorted gets a sorted array" % ip.where(), forall([i, j], implies(and_(le(ZERO, i), le(i, j), lt(j, n)), le(es(i), es(j)))), "contract")
    k = tm.fresh("k")
    lam = mk_lam((k,), ite(and_(le(ZERO, k), lt(k, n)), es(k), ZERO))
    f = lambda x: app("ssorted", lam, n, x, sort="I")
    x = tm.fresh("x")
    ip.assume(forall([x], and_(le(ZERO, f(x)), le(f(x), n))))
    ip.assume(forall([x, k], implies(and_(le(ZERO, k), lt(k, n)), eq_bool(lt(k, f(x)), lt(es(k), x)))))
    if is_scalar(v):
        return f(lift(v))
    e = ip.elem(v)
    return ip.array(v.shape, lambda *ix: f(e(*ix)), "I")


def eq_bool(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def np_in1d(invertible=True):
    def f(ip, a, kw):
        x, s = a[0], a[1]
        x = x if isinstance(x, Arr) else np_array(ip, [x], {})
        s = s if isinstance(s, Arr) else np_array(ip, [s], {})
        es, ex = ip.elem(s), ip.elem(x)
        inv = kw.get("invert", False)
        if not isinstance(inv, bool):
            raise Unsupported("invert")

        def g(*ix):
            ks = [tm.fresh("k") for _ in s.shape]
            c = exists(ks, and_(*[and_(le(ZERO, k), lt(k, n)) for k, n in zip(ks, s.shape)], eq(es(*ks), ex(*ix))))
            return not_(c) if inv else c
        if x.ndim == 1 and s.ndim == 1 and ip.w.__dict__.get("pigeonhole"):
            pigeonhole(ip, x, s, g, inv)
            pigeonhole(ip, x, s, lambda *ix: not_(g(*ix)), not inv)     # for masks written as ~in1d
        return ip.array(x.shape, g, "B")
    return f


def pigeonhole(ip, x, s, g, inv):
    """lemma (trusted): of pairwise distinct x at most len(s) occur in s"""
    i, j = tm.fresh("i"), tm.fresh("j")
    ex, n = ip.elem(x), lift(x.shape[0])
    if pv.prove(ip.hyps(), forall([i, j], implies(and_(le(ZERO, i), lt(i, j), lt(j, n)), ne(ex(i), ex(j))))):
        c, _, _ = mask_positions(ip, n, g)
        ip.assume(le(sub(n, c) if inv else c, lift(s.shape[0])))


# ---------------------------------------------------------------- sparse matrices
def make_csr(ip, name, rows, cols, cls="csr_matrix", dt="R", distinct=True, dtype=None):
    """a well-formed CSR matrix with symbolic content"""
    rows, cols = lift(rows), lift(cols)
    nnz = var("nnz_" + name)
    ptr = ip.input_array("indptr_" + name, (add(rows, ONE),), "I")
    ind = ip.input_array("indices_" + name, (nnz,), "I")
    dat = ip.input_array("data_" + name, (nnz,), dt)
    csr_facts(ip, lambda r: app("indptr_" + name, r, sort="I"), lambda k: app("indices_" + name, k, sort="I"), rows, cols, nnz, distinct)
    rec = {"indptr": ptr, "indices": ind, "data": dat, "_shape": (rows, cols), "_dtype": dtype or DType("?" + name), "_nnz": nnz, "_tok": name}
    return ip.alloc(rec, "obj", ClsV(cls, None, "ext"))


def csr_facts(ip, P, Ix, rows, cols, nnz, distinct=True):
    r, s, k = tm.fresh("r"), tm.fresh("s"), tm.fresh("k")
    ip.assume(le(ZERO, rows))
    ip.assume(le(ZERO, cols))
    ip.assume(le(ZERO, nnz))
    ip.assume(eq(P(ZERO), ZERO))
    ip.assume(eq(P(rows), nnz))
    ip.assume(forall([r], implies(and_(le(ZERO, r), le(r, rows)), and_(le(ZERO, P(r)), le(P(r), nnz)))))
    ip.assume(forall([r, s], implies(and_(le(ZERO, r), le(r, s), le(s, rows)), le(P(r), P(s)))))
    ip.assume(forall([k], implies(and_(le(ZERO, k), lt(k, nnz)), and_(le(ZERO, Ix(k)), lt(Ix(k), cols)))))


def sparse_attr(w, ip, o, name):
    rec = ip.st.heap[o.id]
    if name == "shape":
        return tuple(W().simple(x) for x in rec["_shape"])
    if name == "dtype":
        return rec.get("_dtype", DType("?"))
    if name == "nnz":
        return W().simple(rec["_nnz"])
    if name == "ndim":
        return 2
    if name == "T":
        return sparse_transpose(ip, o)
    if name == "has_sorted_indices":
        return var("sorted:%s" % rec.get("_tok", o.id), "B") if rec.get("_sorted") is not True else True
    if name in SPARSE:
        return Builtin("sparse." + name, SPARSE[name], o)
    raise Unsupported("sparse attribute " + name)


def sparse_setattr(w, ip, o, name, v):
    rec = dict(ip.st.heap[o.id])
    if name in ("data", "indices", "indptr", "row", "col"):
        rec[name] = v
        ip.st.heap[o.id] = rec
        return
    raise Unsupported("sparse attribute assignment")


def sparse_copy(ip, o, **over):
    rec = dict(ip.st.heap[o.id])
    for k in ("indptr", "indices", "data", "row", "col"):
        if k in rec and k not in over:
            rec[k] = copy_arr(ip, rec[k])
    rec.update(over)
    return ip.alloc(rec, "obj", o.cls)


def sparse_astype(ip, a, kw):
    o = a[0]
    d = kwget(a, kw, 1, "dtype")
    rec = ip.st.heap[o.id]
    return sparse_copy(ip, o, data=astype(ip, [rec["data"], d], {}), _dtype=W().dtype_of(d) or DType("?"))


def sparse_binop(w, ip, op, a, b):
    if op in ("*", "/"):
        o, s = (a, b) if w.is_sparse(a) else (b, a)
        if is_scalar(s) and (op == "*" or o is a):
            rec = ip.st.heap[o.id]
            e = ip.elem(rec["data"])
            t = lift(s)
            f = (lambda k: mul(t, e(k))) if op == "*" else (lambda k: div(e(k), t))
            return sparse_copy(ip, o, data=ip.array(rec["data"].shape, f, "R", "data"))
    raise Unsupported("sparse operator " + op)


def sparse_dot(ip, x, y):
    if ip.w.is_sparse(x) and isinstance(y, Arr) and y.ndim == 1 and x.cls.name.startswith("csr"):
        rec = ip.st.heap[x.id]
        P, Ix, D, e = ip.elem(rec["indptr"]), ip.elem(rec["indices"]), ip.elem(rec["data"]), ip.elem(y)

        def f(r):
            k = tm.fresh("k")
            return mk_sum(k, P(r), P(add(r, ONE)), mul(D(k), e(Ix(k))))
        return ip.array((rec["_shape"][0],), f, "R")
    raise Unsupported("sparse product")


def sparse_transpose(ip, o):
    rec = ip.st.heap[o.id]
    if o.cls.name.startswith("coo"):
        return ip.alloc({**rec, "row": rec["col"], "col": rec["row"], "_shape": tuple(reversed(rec["_shape"]))}, "obj", o.cls)
    if "_transposed_of" in rec:
        src = rec["_transposed_of"]
        new = {**rec, "_shape": tuple(reversed(rec["_shape"]))}
        new.pop("_transposed_of")
        return ip.alloc(new, "obj", src.cls)
    if not o.cls.name.startswith("csr"):
        raise Unsupported("transpose of " + o.cls.name)
    return ip.alloc({**rec, "_transposed_of": o, "_shape": tuple(reversed(rec["_shape"]))}, "obj", ClsV("csc_matrix", None, "ext"))


def token(ip, o):
    """the content of a CSR matrix as lambda terms"""
    rec = ip.st.heap[o.id]
    out = []
    for k, n in (("indptr", add(rec["_shape"][0], ONE)), ("indices", rec["_nnz"]), ("data", rec["_nnz"])):
        e = ip.elem(rec[k])
        x = tm.fresh("x")
        out.append(mk_lam((x,), ite(and_(le(ZERO, x), lt(x, n)), e(x), ZERO)))
    return out + [rec["_shape"][0], rec["_shape"][1], rec["_nnz"]]


def structure(ip, o):
    """the sparsity structure of a CSR or COO matrix as terms"""
    if o.cls.name.startswith("csr"):
        t = token(ip, o)
        return t[:2] + t[3:]
    rec = ip.st.heap[o.id]
    out = []
    for k in ("row", "col"):
        e = ip.elem(rec[k])
        x = tm.fresh("x")
        out.append(mk_lam((x,), ite(and_(le(ZERO, x), lt(x, rec["_nnz"])), e(x), ZERO)))
    return out + [rec["_shape"][0], rec["_shape"][1], rec["_nnz"]]


def resorted(ip, o, prefix, rows, cols, data=None):
    """CSR matrix with the entries of o in an order that only depends on its structure"""
    rec = ip.st.heap[o.id]
    if data is not None:
        rec = {**rec, "data": data}
    tk = structure(ip, o)
    nnz = rec["_nnz"]
    P = lambda r: app(prefix + "_indptr", *tk, r, sort="I")
    Ix = lambda k: app(prefix + "_indices", *tk, k, sort="I")
    src = lambda k: app(prefix + "_src", *tk, k, sort="I")   # position of the entry in the source
    D = ip.elem(rec["data"])
    csr_facts(ip, P, Ix, rows, cols, nnz)
    k = tm.fresh("k")
    ip.assume(forall([k], implies(and_(le(ZERO, k), lt(k, nnz)), and_(le(ZERO, src(k)), lt(src(k), nnz)))))
    dst = lambda k: app(prefix + "_dst", *tk, k, sort="I")   # the inverse

    def links(ip):
        """what resorting means (assumed on demand): a permutation of the entries that keeps row and column"""
        r0, c0, _ = coo_entries(ip, o)
        if prefix == "T":
            r0, c0 = c0, r0
        r0, c0 = ip.elem(r0), ip.elem(c0)
        inr = and_(le(ZERO, k), lt(k, nnz))
        ip.assume(forall([k], implies(inr, and_(eq(dst(src(k)), k), eq(Ix(k), c0(src(k))), le(P(r0(src(k))), k), lt(k, P(add(r0(src(k)), ONE)))))))
        ip.assume(forall([k], implies(inr, and_(le(ZERO, dst(k)), lt(dst(k), nnz), eq(src(dst(k)), k)))))
    new = {"_from": o, "_links": links, "_src": src, "_dst": dst, "indptr": ip.array((add(rows, ONE),), P, "I", prefix + "_indptr"), "indices": ip.array((nnz,), Ix, "I", prefix + "_indices"),
           "data": ip.array((nnz,), lambda k: D(src(k)), ip.cell(rec["data"]).dt, prefix + "_data"),
           "_shape": (rows, cols), "_dtype": rec.get("_dtype"), "_nnz": nnz, "_tok": prefix + str(rec.get("_tok")), "_sorted": True}
    return ip.alloc(new, "obj", ClsV("csr_matrix", None, "ext"))


def sparse_tocsr(ip, a, kw):
    o = a[0]
    if o.cls.name.startswith("csr"):
        return o if not kw.get("copy") else sparse_copy(ip, o)
    rec = ip.st.heap[o.id]
    if o.cls.name.startswith("coo"):
        # entries are distinct (precondition of the contracts), so that nothing is summed
        return resorted(ip, o, "C", rec["_shape"][0], rec["_shape"][1])
    if "_transposed_of" in rec:
        src = rec["_transposed_of"]
        return resorted(ip, src, "T", rec["_shape"][0], rec["_shape"][1], rec["data"])
    raise Unsupported("tocsr of " + o.cls.name)


def sparse_row(ip, o, i):
    rec = ip.st.heap[o.id]
    rows, cols = rec["_shape"]
    i = norm_index(ip, i, rows)
    P = ip.elem(rec["indptr"])
    lo, hi = P(i), P(add(i, ONE))
    n = sub(hi, lo)
    ei, ed = ip.elem(rec["indices"]), ip.elem(rec["data"])
    new = {"indptr": ip.array((num(2),), lambda r: ite(eq(r, ZERO), ZERO, n), "I", "row_indptr"),
           "indices": ip.array((n,), lambda k: ei(add(lo, k)), "I", "row_indices"),
           "data": ip.array((n,), lambda k: ed(add(lo, k)), ip.cell(rec["data"]).dt, "row_data"),
           "_shape": (ONE, cols), "_dtype": rec.get("_dtype"), "_nnz": n, "_tok": "row%d" % ip.ctr}
    if rec.get("_row"):
        new["_row"] = rec["_row"]
    return ip.alloc(new, "obj", o.cls)


def sparse_getitem(w, ip, o, ix):
    if not o.cls.name.startswith("csr"):
        raise Unsupported("item of a " + o.cls.name)
    if is_scalar(ix):
        return sparse_row(ip, o, ix)
    raise Unsupported("sparse indexing")


def sparse_sort(ip, a, kw):
    raise Unsupported("sort_indices")


def coo_entries(ip, o):
    """(row, column, data) arrays of a sparse matrix, in the order of its data array"""
    rec = ip.st.heap[o.id]
    if o.cls.name.startswith("coo"):
        return rec["row"], rec["col"], rec["data"]
    if "_transposed_of" in rec:
        r, c, d = coo_entries(ip, rec["_transposed_of"])
        return c, r, rec["data"]
    if not o.cls.name.startswith("csr"):
        raise Unsupported("entries of a " + o.cls.name)
    nnz, rows = rec["_nnz"], rec["_shape"][0]
    P = ip.elem(rec["indptr"])
    x = tm.fresh("x")
    lam = mk_lam((x,), ite(and_(le(ZERO, x), le(x, rows)), P(x), ZERO))
    R = lambda k: app("rowof", lam, rows, k, sort="I")
    k = tm.fresh("k")
    ip.assume(forall([k], implies(and_(le(ZERO, k), lt(k, nnz)), and_(le(ZERO, R(k)), lt(R(k), rows), le(P(R(k)), k), lt(k, P(add(R(k), ONE)))))))
    return ip.array((nnz,), R, "I", "row"), rec["indices"], rec["data"]


def coo_matrix(ip, a, kw):
    o = a[0]
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple):
        d, (r, c) = o
        sh = kw.get("shape", a[1] if len(a) > 1 else None)
        if sh is None:
            raise Unsupported("coo_matrix without a shape")
        n = lift(d.shape[0])
        rec = {"row": r, "col": c, "data": d, "_shape": tuple(lift(v) for v in sh), "_dtype": kw.get("dtype") or ip.w.arr_dtype(ip, d), "_nnz": n, "_tok": "coo%d" % ip.ctr}
        return ip.alloc(rec, "obj", ClsV("coo_matrix", None, "ext"))
    if not ip.w.is_sparse(o):
        raise Unsupported("coo_matrix of %s" % type(o).__name__)
    r, c, d = coo_entries(ip, o)
    rec = ip.st.heap[o.id]
    if kw.get("copy", False if o.cls.name.startswith("coo") else True):
        r, c, d = copy_arr(ip, r), copy_arr(ip, c), copy_arr(ip, d)
    new = {"row": r, "col": c, "data": d, "_shape": rec["_shape"], "_dtype": rec.get("_dtype"), "_nnz": rec["_nnz"], "_tok": "coo_" + str(rec.get("_tok"))}
    return ip.alloc(new, "obj", ClsV("coo_matrix", None, "ext"))


def sparse_sum(ip, o, axis):
    rec = ip.st.heap[o.id]
    r, c, d = coo_entries(ip, o)
    er, ec, ed = ip.elem(r), ip.elem(c), ip.elem(d)
    if axis is None:
        k = tm.fresh("k")
        return W().simple(mk_sum(k, ZERO, rec["_nnz"], ed(k)))
    ax = int(lift(axis).args[0]) % 2
    n = rec["_shape"][1 - ax]

    def at(j):
        k = tm.fresh("k")
        return mk_sum(k, ZERO, rec["_nnz"], ite(eq(er(k) if ax == 1 else ec(k), j), ed(k), ZERO))
    if ax == 1:
        return ip.array((n, ONE), lambda i, j: at(i), "R")
    return ip.array((ONE, n), lambda i, j: at(j), "R")


def eliminate_zeros(ip, a, kw):
    """drops the stored zeros of a COO matrix in place, keeping the order of the others"""
    o = a[0]
    rec = ip.st.heap[o.id]
    e = ip.elem(rec["data"])
    if o.cls.name.startswith("csr"):
        cnt, pos, rank = mask_positions(ip, rec["_nnz"], lambda k: ne(e(k), ZERO))
        lam = mask_lam(rec["_nnz"], lambda k: ne(e(k), ZERO))
        below = lambda x: app("zcount", lam, rec["_nnz"], x, sort="I")   # the number of entries kept before a position
        x, k = tm.fresh("x"), tm.fresh("k")
        ip.assume(forall([x], implies(and_(le(ZERO, x), le(x, rec["_nnz"])), and_(le(ZERO, below(x)), le(below(x), cnt)))))
        ip.assume(forall([x, k], implies(and_(le(ZERO, x), le(x, rec["_nnz"]), le(ZERO, k), lt(k, cnt)), eq_bool(lt(k, below(x)), lt(pos(k), x)))))
        P = ip.elem(rec["indptr"])
        new = {**rec, "_nnz": cnt, "_pos": pos, "_rank": rank, "_before": rec}
        new.pop("_links", None)
        for f in ("indices", "data"):
            g = ip.elem(rec[f])
            new[f] = ip.array((cnt,), lambda i, g=g: g(pos(i)), ip.cell(rec[f]).dt, f)
        new["indptr"] = ip.array((add(rec["_shape"][0], ONE),), lambda r: below(P(r)), "I", "indptr")
        ip.st.heap[o.id] = new
        return None
    if not o.cls.name.startswith("coo"):
        raise Unsupported("eliminate_zeros of a " + o.cls.name)
    cnt, pos, rank = mask_positions(ip, rec["_nnz"], lambda k: ne(e(k), ZERO))
    new = dict(rec)
    for k in ("row", "col", "data"):
        f = ip.elem(rec[k])
        new[k] = ip.array((cnt,), lambda i, f=f: f(pos(i)), ip.cell(rec[k]).dt, k)
    new.update(_nnz=cnt, _pos=pos, _rank=rank)
    ip.st.heap[o.id] = new
    return None


SPARSE = {"eliminate_zeros": eliminate_zeros, "sum": lambda ip, a, kw: reduce_sum(ip, a, kw), "tocoo": coo_matrix, "astype": sparse_astype, "tocsr": sparse_tocsr, "transpose": lambda ip, a, kw: sparse_transpose(ip, a[0]),
          "sort_indices": sparse_sort, "copy": lambda ip, a, kw: sparse_copy(ip, a[0])}


# ---------------------------------------------------------------- builtins
def bi_range(ip, a, kw):
    RangeV = W().RangeV
    if len(a) == 1:
        return RangeV(ZERO, lift(a[0]))
    return RangeV(lift(a[0]), lift(a[1]), lift(a[2]) if len(a) > 2 else ONE)


def prange(ip, a, kw):
    r = bi_range(ip, a, kw)
    r.parallel = True
    return r


def isinstance_(ip, a, kw):
    v, c = a
    cs = list(c) if isinstance(c, tuple) else [c]
    for x in cs:
        n = x.name if isinstance(x, (ClsV, Builtin)) else None
        n = (n or "").split(".")[-1]
        if isinstance(v, H) and isinstance(v.cls, ClsV):
            if v.kind == "obj" and isinstance(x, ClsV):
                if v.cls.mod == "ext" and x.mod == "ext":
                    if v.cls.name == x.name or x.name == "spmatrix":
                        return True
                elif ip.w.subclass(ip, v.cls, x):
                    return True
        if isinstance(v, H) and v.kind == n:
            return True
        if isinstance(v, Arr) and n == "ndarray":
            return True
        if isinstance(v, str) and n == "str":
            return True
        if isinstance(v, tuple) and n == "tuple":
            return True
        if n in ("int", "integer") and (isinstance(v, int) or (isinstance(v, T) and v.sort == "I")):
            return True
        if n == "float" and (isinstance(v, (float, Fraction)) or (isinstance(v, T) and v.sort == "R")):
            return True
        if n == "bool" and (isinstance(v, bool) or (isinstance(v, T) and v.sort == "B")):
            return True
        if n not in ("ndarray", "str", "tuple", "int", "float", "bool", "list", "dict", "integer") and not isinstance(x, ClsV):
            raise Unsupported("isinstance %s" % n)
    return False


def bi_len(ip, a, kw):
    return ip.w.len(ip, a[0])


def bi_enumerate(ip, a, kw):
    return W().EnumV(a[0], lift(kwget(a, kw, 1, "start", 0)))


def bi_list(ip, a, kw):
    if not a:
        return ip.alloc([], "list")
    return ip.alloc(ip.w.listing(ip, a[0]), "list")


def bi_getattr(ip, a, kw):
    try:
        return ip.w.getattr(ip, a[0], a[1])
    except PyRaise as e:
        if e.typ == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def bi_hasattr(ip, a, kw):
    try:
        ip.w.getattr(ip, a[0], a[1])
        return True
    except PyRaise as e:
        if e.typ == "AttributeError":
            return False
        raise


def bi_int(ip, a, kw):
    v = a[0]
    if isinstance(v, T):
        if v.sort == "I":
            return v
        if v.sort == "B":
            return ite(v, ONE, ZERO)
        return app("trunc", v, sort="I")
    return int(v)


def bi_float(ip, a, kw):
    if isinstance(a[0], str):
        raise Unsupported("float of a text")
    return a[0]


def bi_dict(ip, a, kw):
    d = {}
    for x in a:
        if isinstance(x, H) and x.kind == "dict":
            d.update(ip.st.heap[x.id])
        else:
            raise Unsupported("dict()")
    d.update(kw)
    return ip.alloc(d, "dict")


def d_items(ip, a, kw):
    return tuple((k, v) for k, v in ip.st.heap[a[0].id].items())


def d_pop(ip, a, kw):
    d = dict(ip.st.heap[a[0].id])
    if a[1] not in d:
        if len(a) > 2:
            return a[2]
        raise PyRaise("KeyError")
    v = d.pop(a[1])
    ip.st.heap[a[0].id] = d
    return v


def d_get(ip, a, kw):
    return ip.st.heap[a[0].id].get(a[1], a[2] if len(a) > 2 else None)


def d_update(ip, a, kw):
    d = dict(ip.st.heap[a[0].id])
    if len(a) > 1:
        d.update(ip.st.heap[a[1].id])
    d.update(kw)
    ip.st.heap[a[0].id] = d


def l_append(ip, a, kw):
    r = ip.st.heap[a[0].id]
    if not isinstance(r, list):
        return r.append(ip, a[0], a[1])
    ip.st.heap[a[0].id] = list(r) + [a[1]]


def opaque(what):
    def f(ip, a, kw):
        return W().Opaque(what)
    return f


def install(w):
    w.models["builtins.named"] = name_vec
    m = w.models
    n = lambda **k: m.update({"numpy." + a: b for a, b in k.items()})
    n(zeros=filled(0), ones=filled(1), empty=np_empty, full=np_full, eye=np_eye, arange=np_arange, array=np_array,
      asarray=lambda ip, a, kw: np_array(ip, a, kw, False), dot=np_dot, transpose=transpose, outer=np_outer, sum=reduce_sum, mean=reduce_mean,
      append=np_append, concatenate=concat, stack=np_stack, ravel=np_ravel, reshape=reshape, ediff1d=ediff1d, bincount=bincount, where=where,
      finfo=finfo, isscalar=isscalar, dtype=np_dtype, argsort=np_argsort, sort=np_sort, searchsorted=searchsorted, in1d=np_in1d(), isin=np_in1d(),
      sqrt=ufunc(lambda x: app("sqrt", x)), exp=ufunc(lambda x: app("exp", x)), log=ufunc(lambda x: app("log", x)),
      log1p=ufunc(lambda x: app("log1p", x)), abs=ufunc(lambda x: app("abs", x), None), isnan=ufunc(lambda x: app("isnan", x, sort="B"), "B"),
      maximum=ufunc2(max_), minimum=ufunc2(min_), any=any_, all=all_, max=lambda ip, a, kw: extremum(ip, a[0], True),
      min=lambda ip, a, kw: extremum(ip, a[0], False), copy=lambda ip, a, kw: copy_arr(ip, a[0]),
      clip=lambda ip, a, kw: (w.elementwise(ip, lambda x: min_(max_(x, lift(a[1])), lift(a[2])), [a[0]]) if isinstance(a[0], Arr) else min_(max_(lift(a[0]), lift(a[1])), lift(a[2]))))
    m["numpy.linalg.norm"] = norm
    m["numpy.linalg.solve"] = np_solve
    me = w.methods
    me.update(dot=np_dot, sum=reduce_sum, mean=reduce_mean, astype=astype, copy=lambda ip, a, kw: copy_arr(ip, a[0]), reshape=reshape,
              sort=np_sort_inplace, max=lambda ip, a, kw: extremum(ip, a[0], True), min=lambda ip, a, kw: extremum(ip, a[0], False),
              any=any_, all=all_, ravel=np_ravel, transpose=transpose, argsort=np_argsort, flatten=np_ravel,
              item=lambda ip, a, kw: ip.get(a[0], [ZERO] * a[0].ndim))
    b = lambda **k: m.update({"builtins." + a: f for a, f in k.items()})
    b(range=bi_range, len=bi_len, enumerate=bi_enumerate, zip=lambda ip, a, kw: W().ZipV(list(a)), min=builtin_minmax(False), max=builtin_minmax(True),
      isinstance=isinstance_, int=bi_int, float=bi_float, bool=lambda ip, a, kw: w.truthy(ip, a[0]), abs=lambda ip, a, kw: W().simple(app("abs", lift(a[0]))) if is_scalar(a[0]) else w.elementwise(ip, lambda x: app("abs", x), [a[0]]),
      sum=reduce_sum, any=any_, all=all_, getattr=bi_getattr, hasattr=bi_hasattr,
      setattr=lambda ip, a, kw: w.setattr(ip, a[0], a[1], a[2]), print=lambda ip, a, kw: None, tuple=lambda ip, a, kw: tuple(w.listing(ip, a[0])))
    m["class.coo_matrix"] = coo_matrix
    m["class.list"] = bi_list
    m["class.dict"] = bi_dict
    m["class.tuple"] = lambda ip, a, kw: tuple(w.listing(ip, a[0])) if a else ()
    m["class.str"] = lambda ip, a, kw: a[0] if isinstance(a[0], str) else "<text>"
    m["dict.items"] = d_items
    m["dict.keys"] = lambda ip, a, kw: tuple(ip.st.heap[a[0].id])
    m["dict.values"] = lambda ip, a, kw: tuple(ip.st.heap[a[0].id].values())
    m["dict.pop"] = d_pop
    m["dict.get"] = d_get
    m["dict.update"] = d_update
    m["dict.copy"] = lambda ip, a, kw: ip.alloc(dict(ip.st.heap[a[0].id]), "dict")
    m["list.append"] = l_append
    m["str.endswith"] = lambda ip, a, kw: a[0].endswith(a[1])
    m["str.startswith"] = lambda ip, a, kw: a[0].startswith(a[1])
    m["str.format"] = lambda ip, a, kw: "<text>"
    m["str.join"] = lambda ip, a, kw: "<text>"
    m["str.lower"] = lambda ip, a, kw: a[0].lower()
    m["cython.parallel.prange"] = prange
    m["functools.partial"] = lambda ip, a, kw: W().Partial(a[0], a[1:], kw)
    m["time.time"] = lambda ip, a, kw: W().Opaque("time")
    m["logging.getLogger"] = opaque("logger")
    m["warnings.warn"] = lambda ip, a, kw: None
    m["tqdm.auto.tqdm"] = lambda ip, a, kw: W().Opaque("tqdm")
    m["multiprocessing.cpu_count"] = lambda ip, a, kw: var("cpu_count")
    for c in ("cython.parallel.parallel",):
        m[c] = lambda ip, a, kw: None
