"""Models of the C++ standard library pieces of the headers (trusted base).

std::vector<scalar>: an array; operator[] must stay inside.
std::vector<std::pair<score, index>> used as a heap under std::greater: the pairs it holds, as a set of indices (each index is pushed at
most once: an obligation) with their scores and its size.  While it is a heap its front is the least pair; pop_heap and pop_back
remove the least pair; push_back and push_heap add one; sort_heap puts the pairs in decreasing order; otherwise the order of the pairs
is not determined.  Any other use is outside the dialect."""
from interp import Arr, Builtin, Cell, ClsV, H, Unsupported, is_scalar, lift
from terms import *  # noqa
import terms as tm

HEAP = ClsV("std::heapvector", None, "ext")


def is_heap(o):
    return isinstance(o, H) and o.kind == "obj" and o.cls == HEAP


def new_heap(ip, a=(), kw=None):
    if a:
        raise Unsupported("vector of pairs constructed from arguments")
    any_ = var("indices!")
    h = ip.array((any_,), lambda x: ZERO, "I", "results_has")
    s = ip.array((any_,), lambda x: ZERO, "R", "results_score")
    return ip.alloc({"_has": h, "_score": s, "_size": ZERO, "_state": "heap"}, "obj", HEAP)


def parts(ip, o):
    r = ip.st.heap[o.id]
    h, s = ip.st.heap[r["_has"].cell], ip.st.heap[r["_score"].cell]
    return r, (lambda x: eq(h.at((lift(x),)), ONE)), (lambda x: s.at((lift(x),)))


def memo(ip, o, what):
    r = ip.st.heap[o.id]
    m = ip.w.__dict__.setdefault("heapmemo", {})
    h, s = ip.st.heap[r["_has"].cell], ip.st.heap[r["_score"].cell]
    x = var("x!")
    k = (what, h.at((x,)).id, s.at((x,)).id, lift(r["_size"]).id)
    if k not in m:
        m[k] = "%s~h%d" % (what, len(m))
    return m[k]


def before(sc, x, y):
    """pair x is less than pair y"""
    return or_(lt(sc(x), sc(y)), and_(eq(sc(x), sc(y)), lt(x, y)))


def front(ip, o):
    r, has, sc = parts(ip, o)
    f = var(memo(ip, o, "front"))
    x = tm.fresh("x")
    ip.oblige(ip.where() + " the heap is not empty", lt(ZERO, lift(r["_size"])), "bounds")
    ip.assume(has(f))
    ip.assume(forall([x], implies(has(x), or_(eq(f, x), before(sc, f, x)))))
    return f


def order(ip, o):
    """position -> index of the pair there"""
    r, has, sc = parts(ip, o)
    nm = memo(ip, o, "order" if r["_state"] == "sorted" else "some_order")
    at, pos = (lambda p: app(nm, lift(p), sort="I")), (lambda x: app(nm + "_pos", lift(x), sort="I"))
    p, q, x = tm.fresh("p"), tm.fresh("q"), tm.fresh("x")
    n = lift(r["_size"])
    inn = lambda t: and_(le(ZERO, t), lt(t, n))
    ip.assume(forall([p], implies(inn(p), and_(has(at(p)), eq(pos(at(p)), p)))))
    ip.assume(forall([x], implies(has(x), and_(inn(pos(x)), eq(at(pos(x)), x)))))
    if r["_state"] == "sorted":
        ip.assume(forall([p, q], implies(and_(inn(p), inn(q), lt(p, q)), before(sc, at(q), at(p)))))
    return at


def item(ip, o, i):
    r, has, sc = parts(ip, o)
    i = lift(i)
    ip.oblige(ip.where() + " an element of the vector exists", and_(le(ZERO, i), lt(i, lift(r["_size"]))), "bounds")
    if r["_state"] == "heap" and isnum(i, 0):
        f = front(ip, o)
    elif r["_state"] in ("heap", "sorted"):
        f = order(ip, o)(i)
    else:
        raise Unsupported("element of a vector that is %s" % r["_state"])
    return (sc(f), f)


def upd(ip, o, **kw):
    ip.st.heap[o.id] = {**ip.st.heap[o.id], **kw}


def need(ip, o, st):
    s = ip.st.heap[o.id]["_state"]
    if s != st:
        raise Unsupported("a vector that is %s where one that is %s is needed" % (s, st))


def set_cells(ip, o, has, sc):
    r = ip.st.heap[o.id]
    for k, f in (("_has", has), ("_score", sc)):
        c = ip.st.heap[r[k].cell]
        ip.st.heap[r[k].cell] = c.with_body(c.vars, f(c.vars[0]))


def m_clear(ip, a, kw):
    o = a[0]
    set_cells(ip, o, lambda x: ZERO, lambda x: ZERO)
    upd(ip, o, _size=ZERO, _state="heap")


def m_size(ip, a, kw):
    return ip.st.heap[a[0].id]["_size"]


def m_empty(ip, a, kw):
    return eq(lift(ip.st.heap[a[0].id]["_size"]), ZERO)


def m_pop_back(ip, a, kw):
    o = a[0]
    need(ip, o, "a heap with its front moved to the back")
    r, has, sc = parts(ip, o)
    f = front(ip, o)
    c, s = ip.st.heap[r["_has"].cell], ip.st.heap[r["_score"].cell]
    set_cells(ip, o, lambda x: ite(eq(x, f), ZERO, c.at((x,))), lambda x: s.at((x,)))
    upd(ip, o, _size=sub(lift(r["_size"]), ONE), _state="heap")


def m_push_back(ip, a, kw):
    o, v = a
    if not (isinstance(v, tuple) and len(v) == 2):
        raise Unsupported("push of something else than a pair")
    need(ip, o, "heap")
    r, has, sc = parts(ip, o)
    s, k = lift(v[0]), lift(v[1])
    ip.oblige(ip.where() + " no index is pushed twice", not_(has(k)))
    c, d = ip.st.heap[r["_has"].cell], ip.st.heap[r["_score"].cell]
    set_cells(ip, o, lambda x: ite(eq(x, k), ONE, c.at((x,))), lambda x: ite(eq(x, k), s, d.at((x,))))
    upd(ip, o, _size=add(lift(r["_size"]), ONE), _state="a heap with a new element at the back")


def m_front(ip, a, kw):
    return item(ip, a[0], ZERO)


def whole(a):
    if len(a) != 3 or not (isinstance(a[0], tuple) and isinstance(a[1], tuple) and a[0][:1] == ("iterator",) and a[1][:1] == ("iterator",) and a[0][1] == a[1][1]
                           and a[0][2] == "begin" and a[1][2] == "end") or a[2] != ("std::greater",):
        raise Unsupported("heap operation on something else than a whole vector under std::greater")
    return a[0][1]


def pop_heap(ip, a, kw):
    o = whole(a)
    need(ip, o, "heap")
    front(ip, o)
    upd(ip, o, _state="a heap with its front moved to the back")


def push_heap(ip, a, kw):
    o = whole(a)
    need(ip, o, "a heap with a new element at the back")
    upd(ip, o, _state="heap")


def sort_heap(ip, a, kw):
    o = whole(a)
    need(ip, o, "heap")
    upd(ip, o, _state="sorted")


METHODS = {"clear": m_clear, "size": m_size, "empty": m_empty, "pop_back": m_pop_back, "push_back": m_push_back, "front": m_front}


class Hook:
    def getattr(self, ip, o, name):
        if is_heap(o):
            if name in METHODS:
                return Builtin("std::vector." + name, METHODS[name], o)
            if name in ("begin", "end"):
                return Builtin("std::vector." + name, lambda ip, a, kw: ("iterator", a[0], name), o)
            raise Unsupported("vector." + name)
        if isinstance(o, tuple) and len(o) == 2 and name in ("first", "second"):
            return o[0 if name == "first" else 1]
        if isinstance(o, Arr) and name == "size" and o.cls == "vector":
            return Builtin("std::vector.size", lambda ip, a, kw: a[0].shape[0], o)

    def getitem(self, ip, o, ix):
        if is_heap(o):
            return item(ip, o, ix)

    def new_type(self, ip, t):
        from cpp2ir import MODULE
        n = t.split("<")[0].split("[")[0].split("::")[-1].strip()
        v = ip.w.top(MODULE).get(n)
        if isinstance(v, ClsV):
            return v

    def sequence(self, ip, it):
        if is_heap(it):
            r, has, sc = parts(ip, it)
            if r["_state"] not in ("heap", "sorted"):
                raise Unsupported("iteration over a vector that is " + r["_state"])
            at = order(ip, it)
            return lift(r["_size"]), lambda i: (sc(at(i)), at(i))


def vector(ip, a, kw):
    if len(a) != 2:
        raise Unsupported("construction of a vector")
    v = lift(a[1])
    return ip.array((lift(a[0]),), lambda x: v, kw["dt"], "vector", cls="memview")


def install(w):
    w.attr_hooks.append(Hook())
    m = w.models
    from cpp2ir import MODULE
    for mod in (MODULE, "implicit._nearest_neighbours"):
        m[mod + ":std::heapvector"] = new_heap
        m[mod + ":std::greater"] = lambda ip, a, kw: ("std::greater",)
        m[mod + ":std::vector"] = vector
        m[mod + ":pop_heap"] = pop_heap
        m[mod + ":push_heap"] = push_heap
        m[mod + ":sort_heap"] = sort_heap
    m["cython.operator.dereference"] = lambda ip, a, kw: a[0]
    m["threading.RLock"] = m["threading.Lock"] = lambda ip, a, kw: __import__("world").Opaque("lock")
    m["libcpp.algorithm.sort_heap"] = sort_heap
