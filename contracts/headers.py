"""Contracts of the C++ headers (implicit/cpu/select.h, implicit/nearest_neighbours.h), read through clang (C01, C02, C03, C04, C11, C12, C20).

The heaps are proved by loop invariants: after the first c candidates the vector holds min(k, c) of them, each with its score, and no
candidate left out scores higher than one that is held."""
from contract import *  # noqa
from lib_c import Ptr
import lib_cpp as X

MOD = "implicit.cpp"


def kept(ip, o, k, seen, count, score):
    """the invariant of a bounded heap: o holds the best of the candidates x with seen(x); count of them were seen"""
    r, has, sc = X.parts(ip, o)
    x, y = tm.fresh("x"), tm.fresh("y")
    return [("the vector is a heap", TRUE if r["_state"] == "heap" else FALSE),
            ("min(k, candidates) pairs are kept", eq(lift(r["_size"]), min_(k, count))),
            ("every kept pair is a candidate with its score", forall([x], implies(has(x), and_(seen(x), eq(sc(x), score(x)))))),
            ("no candidate left out scores higher", forall([x, y], implies(and_(has(x), seen(y), not_(has(y))), le(score(y), sc(x))))),
            ("with fewer candidates than k all are kept", implies(le(count, k), forall([x], implies(seen(x), has(x)))))]


def heap_of(ip):
    """the vectors of pairs in reach of the current function"""
    out = []
    for v in ip.env.values():
        if X.is_heap(v):
            out.append(v)
        elif isinstance(v, H) and v.kind == "obj" and isinstance(ip.st.heap[v.id], dict):
            out += [u for u in ip.st.heap[v.id].values() if X.is_heap(u)]
    return list(dict.fromkeys(out))


@contract(["C01", "C02", "C03", "C04", "C20"], "select (select.h)", [MOD + ":select"])
def select(c):
    rows, cols, k = c.dim("rows"), c.dim("cols", 0), c.integer("k", 1, g=lambda r, d: r.randint(1, max(1, d["cols"])))
    c.given(le(k, cols))
    b0, i0 = c.integer("batch_row", 0), c.integer("result_row", 0)
    B = c.array("batch", (add(b0, rows), cols), dtype="float32")
    total = c.dim("total", like=add(i0, rows))
    c.given(le(add(i0, rows), total))
    ids = c.array("ids", (total, k), "I", dtype="int32")
    dist = c.array("distances", (total, k), dtype="float32")
    seen = []

    def invariant(ip, node, base, locs, i, lo, hi):
        hs = heap_of(ip)
        if len(hs) != 1 or not any(l[0] == "key" and l[1] == hs[0].id and l[2] == "_size" for l in locs) or len(ip.loopvars) != 1:
            return None
        row = ip.loopvars[0]
        score = lambda x: app("batch", add(b0, row), x)
        return lambda ip, n: [("the candidates seen are counted", and_(le(ZERO, n), le(n, cols)))] + kept(ip, hs[0], k, lambda x: and_(le(ZERO, x), lt(x, n)), n, score)

    def observer(ip, i, lo, hi, pre, hav, outs, base, node):
        if ip.loopvars:
            return False
        seen.append(node)
        c.equal("every row is answered: from the first", lo, ZERO)
        c.equal("every row is answered: to the last", hi, rows)
        st0 = ip.st
        for o in outs:
            ip.st = o.st.copy()
            if o.sig is not None:
                c.fail("a row never ends the search", str(o.sig))
                continue
            for l in ip.locations(hav, o.st):
                ok = l[0] == "var" or l[1] not in base.heap or l[1] in (ids.cell, dist.cell) or base.heap[l[1]] is not None and (getattr(base.heap[l[1]], "name", "").startswith("results") or l[0] == "key")
                c.check("nothing but the results is written", ok, str(l))
            I, D = o.st.heap[ids.cell], o.st.heap[dist.cell]
            I0, D0 = hav.heap[ids.cell], hav.heap[dist.cell]
            r, p = c.index(total, k)
            st1 = ip.st.copy()
            c.assume(ne(r, add(i0, i)))
            c.equal("the ids of other rows stay", I.at((r, p)), I0.at((r, p)))
            c.equal("the scores of other rows stay", D.at((r, p)), D0.at((r, p)))
            ip.st = st1
            row, q, j = add(i0, i), c.index(k), c.index(cols)
            score = lambda x: app("batch", add(b0, i), x)
            a, b = I.at((row, p)), I.at((row, q))
            c.require("an id is a column", and_(le(ZERO, a), lt(a, cols)))
            c.equal("a score is the score of its column", D.at((row, p)), score(a))
            st1 = ip.st.copy()
            c.assume(lt(p, q))
            c.require("ids are distinct", ne(a, b))
            c.require("scores do not increase", le(D.at((row, q)), D.at((row, p))))
            ip.st = st1
            t = tm.fresh("t")
            c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, k)), ne(I.at((row, t)), j))))
            c.require("no column left out scores higher", le(score(j), D.at((row, p))))
        ip.st = st0
        return True
    c.w.invariant, c.w.observer = invariant, observer
    for o in c.call(MOD + ":select", [Ptr(B.cell, (b0, ZERO)), rows, cols, k, Ptr(ids.cell, (i0, ZERO)), Ptr(dist.cell, (i0, ZERO))]):
        c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
    if not seen:
        raise Unsupported("no loop over rows")


def internal(c):
    """a contract about a representation: another representation may be as good, so that a failure is no counterexample"""
    c.assume(I.INEXACT)


def symbolic_heap(c, name="h"):
    """a vector of pairs with any content"""
    ip = c.ip
    o = X.new_heap(ip)
    X.set_cells(ip, o, lambda x: app(name + "_has", x, sort="I"), lambda x: app(name + "_score", x))
    X.upd(ip, o, _size=c.integer(name + "_size", 0, g=lambda r, d: 0))
    c.hooks[name + "_has"] = lambda ev, a: 0
    c.hooks[name + "_score"] = lambda ev, a: Fraction(0)
    return o


@contract(["C11", "C12", "C20"], "TopK::operator() (nearest_neighbours.h)", [MOD + ":TopK.operator()"])
def topk_call(c):
    """one call adds one candidate"""
    internal(c)
    k, n = c.integer("K", 1), c.integer("count", 0, g=lambda r, d: 0)
    index, s = c.integer("index"), c.real("score")
    h = symbolic_heap(c)
    S = lambda x: eq(app("seen", x, sort="I"), ONE)
    c.hooks["seen"] = lambda ev, a: 0
    c.hooks["old"] = lambda ev, a: Fraction(0)
    old = lambda x: app("old", x)
    for _, f in kept(c.ip, h, k, S, n, old):
        c.assume(f)
    c.assume(not_(S(index)))
    o = c.model(MOD, "TopK", K=k, results=h, heap_order=("std::greater",))
    for r in c.method(o, "operator()", [index, s]):
        c.at(r)
        if r.sig == "raise":
            c.fail("never raises", r.val.typ)
            continue
        c.check("the same vector is kept", c.attr(o, "results") == h)
        c.equal("K stays", lift(c.attr(o, "K")), k)
        for nm, f in kept(c.ip, h, k, lambda x: or_(S(x), eq(x, index)), add(n, ONE), lambda x: ite(eq(x, index), s, old(x))):
            c.require(nm, f)


@contract(["C11", "C12"], "TopK::TopK (nearest_neighbours.h)", [MOD + ":TopK.__init__"])
def topk_new(c):
    internal(c)
    k = c.integer("K", 1)
    for r in c.call(MOD + ":TopK", [k]):
        o = c.at(r)
        if r.sig == "raise":
            c.fail("never raises", r.val.typ)
            continue
        c.equal("K is the given number", lift(c.attr(o, "K")), k)
        c.check("pairs are ordered by std::greater", c.attr(o, "heap_order") == ("std::greater",))
        for nm, f in kept(c.ip, c.attr(o, "results"), k, lambda x: FALSE, ZERO, lambda x: ZERO):
            c.require(nm, f)


class Rep:
    """the representation of a SparseMatrixMultiplier: the touched indices as a linked list, newest first.  L(p): the p-th index touched,
    pos: its inverse, m: how many there are, S: the sums of the touched ones"""
    def __init__(self, n, m, L, pos, S):
        self.n, self.m, self.L, self.pos, self.S = lift(n), lift(m), L, pos, S

    def touched(self, x, m=None):
        return and_(le(ZERO, x), lt(x, self.n), le(ZERO, self.pos(x)), lt(self.pos(x), self.m if m is None else m))

    def order(self):
        p, x = tm.fresh("p"), tm.fresh("x")
        return [("the list holds indices, each once", forall([p], implies(and_(le(ZERO, p), lt(p, self.m)), and_(le(ZERO, self.L(p)), lt(self.L(p), self.n), eq(self.pos(self.L(p)), p))))),
                ("the list is complete", forall([x], implies(self.touched(x), eq(self.L(self.pos(x)), x))))]

    def state(self, ip, o, m=None, length=None):
        """what the fields hold while the first m of the list are still there"""
        m = self.m if m is None else m
        r = ip.st.heap[o.id]
        su, nz = ip.st.heap[r["sums"].cell], ip.st.heap[r["nonzeros"].cell]
        x = tm.fresh("x")
        inn = and_(le(ZERO, x), lt(x, self.n))
        t = self.touched(x, m)
        return [("the head is the newest index", eq(lift(r["head"]), ite(le(m, ZERO), num(-2), self.L(sub(m, ONE))))),
                ("the length counts the list", eq(lift(r["length"]), self.m if length is None else length)),
                ("each index links to the one before", forall([x], implies(inn, eq(nz.at((x,)), ite(t, ite(eq(self.pos(x), ZERO), num(-2), self.L(sub(self.pos(x), ONE))), num(-1)))))),
                ("sums belong to touched indices", forall([x], implies(inn, eq(su.at((x,)), ite(t, self.S(x), ZERO)))))]


def multiplier(c, rep):
    ip = c.ip
    for nm in ("sums0", "nonzeros0", "L", "pos", "S"):
        c.hooks[nm] = {"nonzeros0": lambda ev, a: -1, "pos": lambda ev, a: -1, "L": lambda ev, a: 0}.get(nm, lambda ev, a: Fraction(0))
    su = c.array("sums0", (rep.n,), cls="memview")
    nz = c.array("nonzeros0", (rep.n,), "I", cls="memview")
    o = c.model(MOD, "SparseMatrixMultiplier", sums=su, nonzeros=nz, head=c.integer("head", g=lambda r, d: -2), length=c.integer("length", g=lambda r, d: 0))
    for _, f in rep.order() + rep.state(ip, o):
        c.assume(f)
    return o


def any_rep(c):
    n, m = c.dim("n"), c.integer("m", 0, g=lambda r, d: 0)
    L, pos = (lambda p: app("L", p, sort="I")), (lambda x: app("pos", x, sort="I"))
    return Rep(n, m, L, pos, lambda x: app("S", x))


@contract(["C11", "C12", "C20"], "SparseMatrixMultiplier::SparseMatrixMultiplier (nearest_neighbours.h)", [MOD + ":SparseMatrixMultiplier.__init__"])
def smm_new(c):
    internal(c)
    n = c.dim("n")
    for r in c.call(MOD + ":SparseMatrixMultiplier", [n]):
        o = c.at(r)
        if r.sig == "raise":
            c.fail("never raises", r.val.typ)
            continue
        for k in ("sums", "nonzeros"):
            c.equal("one entry per index in " + k, lift(c.attr(o, k).shape[0]), n)
        for nm, f in Rep(n, ZERO, lambda p: ZERO, lambda x: num(-1), lambda x: ZERO).state(c.ip, o):
            c.require(nm, f)


@contract(["C11", "C12", "C20"], "SparseMatrixMultiplier::add (nearest_neighbours.h)", [MOD + ":SparseMatrixMultiplier.add"])
def smm_add(c):
    internal(c)
    rep = any_rep(c)
    o = multiplier(c, rep)
    index, v = c.integer("index", 0, g=lambda r, d: r.randint(0, max(0, d["n"] - 1))), c.real("value")
    c.assume(lt(index, rep.n))
    old = rep.touched(index)
    for r in c.method(o, "add", [index, v]):
        c.at(r)
        if r.sig == "raise":
            c.fail("never raises", r.val.typ)
            continue
        S = lambda x: add(ite(rep.touched(x), rep.S(x), ZERO), ite(eq(x, index), v, ZERO))
        st = c.ip.st.copy()
        c.assume(old)
        if not c.dead():
            new = Rep(rep.n, rep.m, rep.L, rep.pos, S)
            for nm, f in new.order() + new.state(c.ip, o):
                c.require(nm + ", for an index touched before", f)
        c.ip.st = st
        c.assume(not_(old))
        if not c.dead():
            new = Rep(rep.n, add(rep.m, ONE), lambda p: ite(eq(p, rep.m), index, rep.L(p)), lambda x: ite(eq(x, index), rep.m, ite(rep.touched(x), rep.pos(x), num(-1))), S)
            for nm, f in new.order() + new.state(c.ip, o):
                c.require(nm + ", for a new index", f)


@contract(["C11", "C12", "C20"], "SparseMatrixMultiplier::foreach (nearest_neighbours.h)", [MOD + ":SparseMatrixMultiplier.foreach"])
def smm_foreach(c):
    internal(c)
    rep = any_rep(c)
    o = multiplier(c, rep)
    k = c.integer("K", 1)
    h = X.new_heap(c.ip)
    f = c.model(MOD, "TopK", K=k, results=h, heap_order=("std::greater",))
    seen = []

    def invariant(ip, node, base, locs, i, lo, hi):
        if not any(l[0] == "key" and l[1] == h.id and l[2] == "_size" for l in locs):
            return None
        seen.append(1)

        def at(ip, n):
            left = sub(rep.m, n)
            return ([("the list is walked", and_(le(ZERO, n), le(n, rep.m)))] + rep.state(ip, o, left)
                    + kept(ip, h, k, lambda x: and_(rep.touched(x), le(left, rep.pos(x))), n, rep.S))
        return at
    c.w.invariant = invariant
    for r in c.method(o, "foreach", [f]):
        c.at(r)
        if r.sig == "raise":
            c.fail("never raises", r.val.typ)
            continue
        for nm, g in kept(c.ip, h, k, rep.touched, rep.m, rep.S):
            c.require(nm + ", after the last call", g)
        for nm, g in Rep(rep.n, ZERO, lambda p: ZERO, lambda x: num(-1), lambda x: ZERO).state(c.ip, o):
            c.require("cleared: " + nm, g)
    if not seen:
        raise Unsupported("no loop over the list")
