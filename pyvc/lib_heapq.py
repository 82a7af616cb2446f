"""Models of heapq on a list of (score, index) pairs, of lists built from sequences of symbolic length, and of scipy's Cholesky solver
(trusted base).  A contract turns them on (use): an empty list is then a heap of pairs as in lib_cpp, each index pushed at most once.

A generator that pops its heap once per element, as many times as the heap has elements, yields the pairs in increasing order.
cho_factor keeps the matrix of which it read one triangle; cho_solve of its result is the solution for that matrix; a matrix which is
not positive definite raises LinAlgError."""
from interp import Builtin, H, N, PyRaise, SliceV, Unsupported, is_scalar, lift
from terms import *  # noqa
import terms as tm
import lib_cpp as X


class Seq:
    """the content of a list of symbolic length"""
    def __init__(self, n, at):
        self.n, self.at = lift(n), at

    def length(self, ip):
        return self.n

    def sequence(self, ip):
        return self.n, self.at

    def getitem(self, ip, o, ix):
        if isinstance(ix, SliceV):
            if ix.lo is None and ix.hi is None and ix.step is not None and isnum(lift(ix.step), -1):
                return new_list(ip, self.n, lambda i: self.at(sub(sub(self.n, ONE), i)))
            if ix.lo is None and ix.hi is None and ix.step is None:
                return new_list(ip, self.n, self.at)
            raise Unsupported("slice of a list")
        ip.oblige(ip.where() + " an element of the list exists", and_(le(ZERO, lift(ix)), lt(lift(ix), self.n)), "bounds")
        return self.at(lift(ix))


def new_list(ip, n, at):
    return ip.alloc(Seq(n, at), "list")


def put(ip, o, v):
    X.m_push_back(ip, [o, v], {})
    X.upd(ip, o, _state="heap")


def heappush(ip, a, kw):
    if not X.is_heap(a[0]):
        raise Unsupported("heappush on another list")
    put(ip, a[0], a[1])


def heappushpop(ip, a, kw):
    o, v = a
    if not X.is_heap(o) or not (isinstance(v, tuple) and len(v) == 2):
        raise Unsupported("heappushpop on another list")
    X.need(ip, o, "heap")
    r, has, sc = X.parts(ip, o)
    s, k = lift(v[0]), lift(v[1])
    f, n = var(X.memo(ip, o, "front")), lift(r["_size"])
    x = tm.fresh("x")
    ip.oblige(ip.where() + " no index is pushed twice", not_(has(k)))
    ip.assume(implies(lt(ZERO, n), has(f)))
    ip.assume(implies(lt(ZERO, n), forall([x], implies(has(x), or_(eq(f, x), X.before(sc, f, x))))))
    less = and_(lt(ZERO, n), or_(lt(sc(f), s), and_(eq(sc(f), s), lt(f, k))))
    c, d = ip.st.heap[r["_has"].cell], ip.st.heap[r["_score"].cell]
    X.set_cells(ip, o, lambda x: ite(less, ite(eq(x, f), ZERO, ite(eq(x, k), ONE, c.at((x,)))), c.at((x,))), lambda x: ite(and_(less, eq(x, k)), s, d.at((x,))))
    return (ite(less, sc(f), s), ite(less, f, k))


def heapreplace(ip, a, kw):
    """the front is popped whatever the new pair is"""
    o, v = a
    if not X.is_heap(o):
        raise Unsupported("heapreplace on another list")
    X.need(ip, o, "heap")
    f = X.front(ip, o)
    r, has, sc = X.parts(ip, o)
    out = (sc(f), f)
    X.upd(ip, o, _state="a heap with its front moved to the back")
    X.m_pop_back(ip, [o], {})
    put(ip, o, v)
    return out


def heappop(ip, a, kw):
    o = a[0]
    if not X.is_heap(o):
        raise Unsupported("heappop on another list")
    d = getattr(ip.w, "drain", None)
    if d is None:
        X.need(ip, o, "heap")
        f = X.front(ip, o)
        r, has, sc = X.parts(ip, o)
        out = (sc(f), f)
        X.upd(ip, o, _state="a heap with its front moved to the back")
        X.m_pop_back(ip, [o], {})
        return out
    X.need(ip, o, "heap")
    if d["heap"] is not None:
        raise Unsupported("a generator with two pops")
    r, has, sc = X.parts(ip, o)
    n = lift(r["_size"])
    if d["n"] is not n and not ip.w.dims_equal(ip, d["n"], n):
        raise Unsupported("a generator that pops another number of elements")
    d["heap"] = o
    x = app(X.memo(ip, o, "order"), sub(sub(n, ONE), d["p"]), sort="I")
    return (sc(x), x)


def subst(v, p, i):
    if isinstance(v, tuple):
        return tuple(subst(x, p, i) for x in v)
    if isinstance(v, (int, float)) or v is None:
        return v
    if is_scalar(v):
        return tm.subst(lift(v), {p: i})
    raise Unsupported("element of a comprehension")


def comp_sequence(ip, c):
    """(length, element function) of a comprehension over a sequence of symbolic length, or None"""
    node = c.node
    if len(node.gens) != 1 or node.gens[0].ifs or node.kind == "dict":
        return None
    g = node.gens[0]
    env = {"__module__": ip.st.fr[c.fid].get("__module__"), "__closure__": c.fid, "__class__": ip.st.fr[c.fid].get("__class__")}
    old, fid = ip.push(env)
    try:
        n, at = ip.w.sequence(ip, ip.ev(g.iter))
        if n is None or lift(n).op == "num":
            return None
        p = ip.new("p")
        outer, ip.w.drain = getattr(ip.w, "drain", None), {"n": lift(n), "p": p, "heap": None}
        base = ip.st
        ip.st = base.copy()
        try:
            ip.assume(and_(le(ZERO, p), lt(p, lift(n))))
            ip.assign(g.target, at(p))
            v = ip.ev(node.elt)
            h = ip.w.drain["heap"]
            if [l for l in ip.locations(base, ip.st) if l[0] != "var" or l[1] != fid]:
                raise Unsupported("comprehension with an effect")
        finally:
            ip.st = base
            ip.w.drain = outer
        if h is not None:
            X.upd(ip, h, _state="sorted")
            X.order(ip, h)
            X.upd(ip, h, _state="drained")
    finally:
        ip.st.fid = old
        ip.st.fr.pop(fid, None)
    return lift(n), lambda i: subst(v, p, lift(i))


def ordered(ip, o, descending):
    X.need(ip, o, "heap")
    r, has, sc = X.parts(ip, o)
    X.upd(ip, o, _state="sorted")
    at = X.order(ip, o)
    X.upd(ip, o, _state="heap")
    n = lift(r["_size"])
    pick = (lambda i: at(lift(i))) if descending else (lambda i: at(sub(sub(n, ONE), lift(i))))
    return n, lambda i: (sc(pick(i)), pick(i))


def py_sorted(ip, a, kw):
    if not X.is_heap(a[0]) or set(kw) - {"reverse"}:
        raise Unsupported("sorted")
    return new_list(ip, *ordered(ip, a[0], kw.get("reverse") in (True,)))


def py_reversed(ip, a, kw):
    n, at = ip.w.sequence(ip, a[0])
    if n is None:
        raise Unsupported("reversed")
    return new_list(ip, n, lambda i: at(sub(sub(lift(n), ONE), lift(i))))


def nlargest(ip, a, kw):
    if not X.is_heap(a[1]) or kw:
        raise Unsupported("nlargest")
    n, at = ordered(ip, a[1], True)
    return new_list(ip, min_(max_(lift(a[0]), ZERO), n), at)


def py_list(ip, a, kw):
    import lib_np
    if not a:
        return X.new_heap(ip)
    n, at = ip.w.sequence(ip, a[0])
    if n is not None and lift(n).op != "num":
        return new_list(ip, n, at)
    return lib_np.bi_list(ip, a, kw)


def cho_factor(ip, a, kw):
    import lib_c
    A = a[0]
    if len(a) > 1 or set(kw) - {"lower", "overwrite_a", "check_finite"} or kw.get("lower", False) not in (True, False) or kw.get("overwrite_a"):
        raise Unsupported("cho_factor")
    low = bool(kw.get("lower", False))
    n = lift(A.shape[0])
    import lib_np
    lib_np.need_dim(ip, A.shape[1], n)
    e = ip.elem(A)
    M = lambda i, j: ite(le(j, i) if low else le(i, j), e(i, j), e(j, i))
    _, info = lib_c.solve_term(n, M, lambda k: ZERO, tm.fresh("f"))
    ok = eq(info, ZERO)
    if ip.choose(2) == 1:
        ip.path(not_(ok))
        raise PyRaise("LinAlgError")
    ip.path(ok)
    nm = ip.nm("cholesky")
    out = ip.array((n, n), lambda i, j: app(nm, i, j), "R", "cholesky")
    ip.w.__dict__.setdefault("cho", {})[out.cell] = (n, M, low, ip.st.heap[out.cell].at((var("i!"), var("j!"))))
    return (out, low)


def cho_solve(ip, a, kw):
    import lib_c
    import lib_np
    if len(a) < 2 or not isinstance(a[0], tuple) or len(a[0]) != 2 or set(kw) - {"check_finite"} or len(a) > 2:
        raise Unsupported("cho_solve")
    (f, low), b = a[:2]
    rec = ip.w.__dict__.get("cho", {}).get(getattr(f, "cell", None))
    if rec is None or rec[2] is not low or ip.st.heap[f.cell].at((var("i!"), var("j!"))) is not rec[3] or b.ndim != 1:
        raise Unsupported("cho_solve of another factorization")
    n, M = rec[:2]
    lib_np.need_dim(ip, b.shape[0], n)
    e = ip.elem(b)
    return ip.array((n,), lambda k: lib_c.solve_term(n, M, e, k)[0], "R")


class Hook:
    def len(self, ip, v):
        if X.is_heap(v):
            import world
            return world.simple(lift(ip.st.heap[v.id]["_size"]))

    def comprehension(self, ip, e):
        import world
        r = comp_sequence(ip, world.CompV(e, ip.st.fid)) if e.kind == "list" else None
        return None if r is None else new_list(ip, *r)

    def sequence(self, ip, it):
        import world
        if isinstance(it, world.CompV):
            return comp_sequence(ip, it)


def use(w):
    w.empty_list_is_heap = True
    w.attr_hooks.append(Hook())
    m = w.models
    for f in (heappush, heappushpop, heapreplace, heappop, nlargest):
        m["heapq." + f.__name__] = f
    m["class.list"] = py_list
    m["builtins.sorted"], m["builtins.reversed"] = py_sorted, py_reversed
    m["scipy.linalg.cho_factor"], m["scipy.linalg.cho_solve"] = cho_factor, cho_solve
