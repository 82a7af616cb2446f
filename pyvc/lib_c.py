"""Models of the C library, BLAS and LAPACK functions the kernels call (trusted base).

axpy, dot, scal, symv: their BLAS definitions over the reals; symv and posv read only the triangle named by uplo
posv: info == 0 and then b holds the solution of M x = b with the (symmetric) M given by that triangle; otherwise info != 0
malloc: a fresh buffer of undetermined content; memcpy, memset: copies/zeroes exactly the bytes given"""
from interp import Arr, Builtin, Cell, H, Ptr, PyRaise, Ref, Unsupported, is_scalar, lift
from terms import *  # noqa
import terms as tm
import prover as pv


def val(ip, p):
    """value behind a pointer to a scalar"""
    if isinstance(p, Ref):
        v = ip.st.fr[p.fid].get(p.name)
        if not is_scalar(v):
            raise Unsupported("pointer to an undetermined scalar " + p.name)
        return lift(v)
    if isinstance(p, Ptr):
        c = ip.st.heap[p.cell]
        ip.bounds(c, p.pos)
        return c.at(p.pos)
    if is_scalar(p):
        return lift(p)
    raise Unsupported("dereference of %s" % type(p).__name__)


def setval(ip, p, v):
    if isinstance(p, Ref):
        ip.st.fr[p.fid][p.name] = v
    elif isinstance(p, Ptr):
        ip.store(p.cell, p.pos, v)
    else:
        raise Unsupported("store through %s" % type(p).__name__)


def one(ip, p):
    if not isnum(val(ip, p), 1):
        raise Unsupported("BLAS increment other than 1")


def rng(ip, p, n):
    """bounds obligation for n elements behind a pointer within the innermost dimension"""
    c = ip.st.heap[p.cell]
    last = p.pos[-1]
    g = and_(le(ZERO, last), le(add(last, n), c.shape[-1]), *[and_(le(ZERO, i), lt(i, m)) for i, m in zip(p.pos[:-1], c.shape[:-1])])
    ip.oblige("%s %s elements of %s stay inside" % (ip.where(), show(n), c.name or "a buffer"), implies(lt(ZERO, n), g), "bounds")


def vec(ip, p, n):
    """element function of a vector behind a pointer (snapshot)"""
    if not isinstance(p, Ptr):
        raise Unsupported("vector argument %s" % type(p).__name__)
    rng(ip, p, n)
    c = ip.st.heap[p.cell]
    return lambda f: c.at(p.pos[:-1] + (add(p.pos[-1], f),))


def put_vec(ip, p, n, fn):
    rng(ip, p, n)
    c = ip.st.heap[p.cell]
    v = c.vars
    off = sub(v[-1], p.pos[-1])
    conds = [eq(x, i) for x, i in zip(v[:-1], p.pos[:-1])]
    if not (p.pos[-1] is ZERO and n is c.shape[-1]):
        conds += [le(ZERO, off), lt(off, n)]
    ip.st.heap[p.cell] = c.with_body(v, ite(and_(*conds), fn(off), c.body))


def axpy(ip, a, kw):
    n, al = val(ip, a[0]), val(ip, a[1])
    one(ip, a[3]), one(ip, a[5])
    x, y = vec(ip, a[2], n), vec(ip, a[4], n)
    put_vec(ip, a[4], n, lambda f: add(y(f), mul(al, x(f))))


def dot(ip, a, kw):
    n = val(ip, a[0])
    one(ip, a[2]), one(ip, a[4])
    x, y = vec(ip, a[1], n), vec(ip, a[3], n)
    k = tm.fresh("k")
    return mk_sum(k, ZERO, n, mul(x(k), y(k)))


def scal(ip, a, kw):
    n, al = val(ip, a[0]), val(ip, a[1])
    one(ip, a[3])
    x = vec(ip, a[2], n)
    put_vec(ip, a[2], n, lambda f: mul(al, x(f)))


def triangle(ip, uplo, p, n, lda):
    """the symmetric matrix that uplo selects from a row-major buffer"""
    u = uplo if isinstance(uplo, str) else getattr(uplo, "decode", lambda: "?")()
    if not isinstance(p, Ptr):
        raise Unsupported("matrix argument")
    c = ip.st.heap[p.cell]
    if len(c.shape) != 2 or not all(isnum(i, 0) for i in p.pos):
        raise Unsupported("matrix argument is not a whole matrix")
    if c.shape[1] is not lda and pv.decide(ip.hyps(), eq(c.shape[1], lda)) is not True:
        raise Unsupported("leading dimension differs from the row length")
    ip.oblige("%s the matrix %s holds %s rows and columns" % (ip.where(), c.name, show(n)), and_(le(n, c.shape[0]), le(n, c.shape[1])), "bounds")
    at = lambda f, g: c.at((f, g))
    if u in ("U", "u"):
        return lambda f, g: ite(le(g, f), at(f, g), at(g, f))
    if u in ("L", "l"):
        return lambda f, g: ite(le(f, g), at(f, g), at(g, f))
    raise Unsupported("uplo")


def symv(ip, a, kw):
    n, al, be = val(ip, a[1]), val(ip, a[2]), val(ip, a[7])
    M = triangle(ip, a[0], a[3], n, val(ip, a[4]))
    one(ip, a[6]), one(ip, a[9])
    x, y = vec(ip, a[5], n), vec(ip, a[8], n)

    def r(f):
        k = tm.fresh("k")
        return add(mul(al, mk_sum(k, ZERO, n, mul(M(f, k), x(k)))), mul(be, y(f)) if not isnum(be, 0) else ZERO)
    put_vec(ip, a[8], n, r)


def guard1(n, f, body):
    return ite(and_(le(ZERO, f), lt(f, n)), body, ZERO)


def solve_term(n, M, b, f):
    """component f of the solution of M x = b (n by n), a function of the entries inside the range only"""
    i, j, k = tm.fresh("i"), tm.fresh("j"), tm.fresh("k")
    lm = mk_lam((i, j), ite(and_(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)), M(i, j), ZERO))
    lb = mk_lam((k,), ite(and_(le(ZERO, k), lt(k, n)), b(k), ZERO))
    return app("solve", lm, lb, n, f, sort="R"), app("solve_info", lm, n, sort="I")


def posv(ip, a, kw):
    n = val(ip, a[1])
    if not isnum(val(ip, a[2]), 1):
        raise Unsupported("posv with several right hand sides")
    M = triangle(ip, a[0], a[3], n, val(ip, a[4]))
    b = vec(ip, a[5], n)
    ldb = val(ip, a[6])
    if ldb is not n and pv.decide(ip.hyps(), le(n, ldb)) is not True:
        raise Unsupported("posv ldb")
    f0 = tm.fresh("f")
    _, info = solve_term(n, M, b, f0)
    # on failure b is left undetermined; the matrix is overwritten in any case
    name = ip.nm("undef_posv")
    put_vec(ip, a[5], n, lambda f: ite(eq(info, ZERO), solve_term(n, M, b, f)[0], app(name, f)))
    c = ip.st.heap[a[3].cell]
    nm = ip.nm("chol")
    ip.st.heap[a[3].cell] = c.with_body(c.vars, app(nm, *c.vars))
    setval(ip, a[7], info)


def malloc(ip, a, kw):
    from world import Bytes
    b = a[0]
    if not isinstance(b, Bytes):
        raise Unsupported("malloc of a plain number of bytes")
    p = to_poly(b.count)
    if len(p) == 1:
        (m, c), = p.items()
        atoms = [x for x, e in m for _ in range(e)]
        if c == 1 and len(atoms) == 2:
            shape = tuple(atoms)
        else:
            shape = (b.count,)
    else:
        shape = (b.count,)
    f = ip.nm("undef_mem")
    vs = tuple(tm.fresh("x") for _ in shape)
    dt = "I" if b.typ.replace(" ", "") in ("int", "long", "integral") else "R"
    c = ip.alloc(Cell(shape, vs, app(f, *vs, sort=dt), dt, "malloc", {"private": True}))
    return Ptr(c, (ZERO,) * len(shape))


def memcpy(ip, a, kw):
    from world import Bytes
    d, s, b = a[:3]
    if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(b, Bytes)):
        raise Unsupported("memcpy")
    cd, cs = ip.st.heap[d.cell], ip.st.heap[s.cell]
    if len(cd.shape) == 2 and len(cs.shape) == 2 and all(isnum(i, 0) for i in d.pos + s.pos):
        tot = mul(cd.shape[0], cd.shape[1])
        same = all(x is y or pv.decide(ip.hyps(), eq(x, y)) is True for x, y in zip(cd.shape, cs.shape))
        if same and (tot is b.count or pv.decide(ip.hyps(), eq(tot, b.count)) is True):
            ip.st.heap[d.cell] = cd.with_body(cd.vars, cs.at(cd.vars))
            return
    x = vec(ip, s, b.count)
    put_vec(ip, d, b.count, x)


def memset(ip, a, kw):
    from world import Bytes
    d, v, b = a[:3]
    if not (isinstance(d, Ptr) and isinstance(b, Bytes)) or not isnum(lift(v), 0):
        raise Unsupported("memset")
    c = ip.st.heap[d.cell]
    if len(c.shape) == 2 and all(isnum(i, 0) for i in d.pos) and mul(*c.shape) is b.count:
        ip.st.heap[d.cell] = c.with_body(c.vars, ZERO)
        return
    put_vec(ip, d, b.count, lambda f: ZERO)


def install(w):
    m = w.models
    for t in "sd":
        for n, f in (("axpy", axpy), ("dot", dot), ("scal", scal), ("symv", symv)):
            m["scipy.linalg.cython_blas." + t + n] = f
        m["scipy.linalg.cython_lapack." + t + "posv"] = posv
    m["libc.stdlib.malloc"] = malloc
    m["libc.stdlib.free"] = lambda ip, a, kw: None
    m["libc.string.memcpy"] = memcpy
    m["libc.string.memset"] = memset
    num_ = lambda f: (lambda ip, a, kw: app(f, lift(a[0])))
    m["libc.math.exp"] = num_("exp")
    m["libc.math.sqrt"] = num_("sqrt")
    m["libc.math.log"] = num_("log")
    m["libc.math.fmin"] = lambda ip, a, kw: min_(lift(a[0]), lift(a[1]))
    m["libc.math.fmax"] = lambda ip, a, kw: max_(lift(a[0]), lift(a[1]))
    m["cython.parallel.threadid"] = lambda ip, a, kw: ip.w.thread_id(ip)
