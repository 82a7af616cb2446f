"""Contracts of incremental updates and of the caches of ALS (C09).  recalculate_user and recalculate_item are used through their
contracts (als_python.py): their result is one row per id, a function of the interactions and the other side's factors."""
from contract import *  # noqa
from als_python import als_model
from als_fit import content, csr_content
from als_kernels import ssum

MOD = "implicit.cpu.als"
ALS = MOD + ":AlternatingLeastSquares"


def recalculated(side):
    def run(ip, f, a, kw):
        names = ["self", side + "id", "user_items" if side == "user" else "item_users"]
        v = dict(zip(names, ([f.self_] if f.self_ is not None else []) + list(a)))
        v.update(kw)
        m, ids, C_ = v["self"], v[names[1]], v[names[2]]
        one = not isinstance(ids, Arr)
        if not ip.w.is_sparse(C_) or (one and not isinstance(ids, (int, tm.T))):
            raise Unsupported("arguments of recalculate_" + side)
        cnt = ONE if one else lift(ids.shape[0])
        rec = ip.st.heap[m.id]
        oth = rec["item_factors" if side == "user" else "user_factors"]
        rows, cols = ip.st.heap[C_.id]["_shape"]
        args = csr_content(ip, C_) + [content(ip, oth), lift(rec["regularization"]), lift(rec["alpha"])]
        bad = or_(ne(lift(rows), cnt), lt(lift(oth.shape[0]), lift(cols)), app("singular", *args, sort="B"))
        if ip.choose(2) == 1:
            ip.path(bad)
            raise PyRaise("ValueError")
        ip.path(not_(bad))
        if one:
            return ip.array((rec["factors"],), lambda f: app("recalculated", *args, ZERO, f), "R", "recalculated")
        return ip.array((ids.shape[0], rec["factors"]), lambda r, f: app("recalculated", *args, r, f), "R", "recalculated")
    return run


def norms_of(a, ip):
    e = ip.elem(a)
    n = lift(a.shape[1])
    return lambda i: (lambda s: ite(eq(s, ZERO), div(ONE, num(10 ** 10)), s))(app("sqrt", ssum(0, n, lambda f: mul(e(i, f), e(i, f)))))


def gram(a, ip):
    e = ip.elem(a)
    return lambda i, j: ssum(0, lift(a.shape[0]), lambda k: mul(e(k, i), e(k, j)))


CACHES = {"_item_norms": ("item_factors", norms_of), "_YtY": ("item_factors", gram), "_user_norms": ("user_factors", norms_of), "_XtX": ("user_factors", gram)}


def coherent(c, m, name):
    """an obligation: the cache is empty or holds the value of the current factors"""
    v = c.attr(m, name)
    if v is None:
        c.check("cache %s coherent" % name, True)
        return
    src, f = CACHES[name]
    g = f(c.attr(m, src), c.ip)
    if not isinstance(v, Arr):
        raise Unsupported("cache %s" % name)
    ix = [c.index(lift(n)) for n in v.shape]
    c.equal("cache %s coherent" % name, c.elem(v, *ix), g(*ix))
    c.equal("size of cache %s" % name, lift(v.shape[0]), lift(c.attr(m, src).shape[0 if "norms" in name else 1]))


def filled(c, m):
    """every cache present and coherent"""
    for name, (src, f) in CACHES.items():
        a = c.attr(m, src)
        g = f(a, c.ip)
        sh = (a.shape[0],) if "norms" in name else (a.shape[1], a.shape[1])
        c.ip.st.heap[m.id] = {**c.ip.st.heap[m.id], name: c.ip.array(sh, g, "R", name)}


def partial(side, what):
    label = "partial_fit_%ss (%s)" % (side, what)

    @contract(["C09", "C20", "C05"], label, [ALS + ".partial_fit_%ss" % side])
    def run(c):
        c.w.summaries[ALS + ".recalculate_user"] = recalculated("user")
        c.w.summaries[ALS + ".recalculate_item"] = recalculated("item")
        users, items, n, q = c.dim("users"), c.dim("items"), c.dim("factors", 1), c.dim("q", 1)
        m, X, Y = als_model(c, users, items, n)
        filled(c, m)
        mine, others = (X, Y) if side == "user" else (Y, X)
        size = users if side == "user" else items
        F, G = ("X", "Y") if side == "user" else ("Y", "X")
        rows, cols = c.dim("rows"), c.dim("cols")
        C_ = c.csr("C", rows, cols)
        ids = c.array("ids", (q,), "I", g=lambda r, k, ix: r.randint(0, 6) if what == "any ids" else ix[0])
        t = tm.fresh("t")
        c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, q)), le(ZERO, app("ids", t, sort="I")))))
        args = csr_content(c.ip, C_) + [content(c.ip, others), var("reg", "R"), var("alpha", "R")]
        for o in c.method(m, "partial_fit_%ss" % side, [ids, C_]):
            c.at(o)
            if o.sig == "raise":
                c.check("raises only ValueError", o.val.typ == "ValueError", o.val.typ)
                j, i, f = c.index(size, q, n)
                a = c.attr(m, "%s_factors" % side)
                c.check("a rejected call leaves the factors", isinstance(a, Arr) and a.same(mine), "replaced")
                c.equal("a rejected call changes no factor", c.elem(a, j, f), app(F, j, f))
                continue
            c.require("one row of interactions per id", eq(rows, q))
            c.require("no interactions outside the model", le(cols, lift(others.shape[0])))
            a = c.attr(m, "%s_factors" % side)
            new = lift(a.shape[0])
            i, f = c.index(q, n)
            u = app("ids", i, sort="I")
            c.require("every id has a row", lt(u, new))
            t = tm.fresh("t")
            c.equal("the row of an id holds its last recalculated row", ite(forall([t], implies(and_(lt(i, t), lt(t, q)), ne(app("ids", t, sort="I"), u))), c.elem(a, u, f), ZERO),
                    ite(forall([t], implies(and_(lt(i, t), lt(t, q)), ne(app("ids", t, sort="I"), u))), app("recalculated", *args, i, f), ZERO))
            j = c.index(new)
            hit = exists([t], and_(le(ZERO, t), lt(t, q), eq(app("ids", t, sort="I"), j)))
            c.equal("a row not given keeps its value, new ones are zero", ite(hit, ZERO, c.elem(a, j, f)), ite(hit, ZERO, ite(lt(j, size), app(F, j, f), ZERO)))
            c.require("no row disappears", le(size, new))
            c.require("no more rows than needed", or_(eq(new, size), exists([t], and_(le(ZERO, t), lt(t, q), eq(add(app("ids", t, sort="I"), ONE), new)))))
            c.equal("the number of factors stays", lift(a.shape[1]), n)
            b = c.attr(m, "%s_factors" % ("item" if side == "user" else "user"))
            j = c.index(lift(others.shape[0]))
            c.check("the other side's factors stay", isinstance(b, Arr) and b.same(others), "replaced")
            c.equal("the other side's factors are unchanged", c.elem(b, j, f), app(G, j, f))
            for name in CACHES:
                coherent(c, m, name)
            k = c.index(var("nnz_C"))
            c.equal("the interactions passed in are unchanged", c.elem(c.attr(C_, "data"), k), app("data_C", k))
            c.equal("the ids passed in are unchanged", c.elem(ids, i), app("ids", i, sort="I"))


for side in ("user", "item"):
    partial(side, "any ids")


def lazy(prop, name, present):
    @contract(["C09", "C03", "C06"], "%s (%s)" % (prop, "cached" if present else "empty cache"), [(ALS if "t" in prop else "implicit.cpu.matrix_factorization_base:MatrixFactorizationBase") + "." + prop])
    def run(c):
        users, items, n = c.dim("users"), c.dim("items"), c.dim("factors", 1)
        m, X, Y = als_model(c, users, items, n)
        if present:
            filled(c, m)
        src, f = CACHES[name]
        for o in c.explore(lambda: c.w.getattr(c.ip, m, prop)):
            v = c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            g = f(c.attr(m, src), c.ip)
            ix = [c.index(lift(k)) for k in v.shape]
            c.equal("the value is that of the current factors", c.elem(v, *ix), g(*ix))
            a = c.attr(m, src)
            c.equal("its size", lift(v.shape[0]), lift(a.shape[0 if "norms" in name else 1]))
            c.check("the factors stay", a.same(X if src == "user_factors" else Y), "replaced")
            i, j = c.index(lift(a.shape[0]), n)
            c.equal("the factors are unchanged", c.elem(a, i, j), app("X" if src == "user_factors" else "Y", i, j))
            for k in CACHES:
                coherent(c, m, k)


for prop, name in (("YtY", "_YtY"), ("XtX", "_XtX"), ("item_norms", "_item_norms"), ("user_norms", "_user_norms")):
    for present in (True, False):
        lazy(prop, name, present)
