"""Contracts of AlternatingLeastSquares.fit (C22): the alternation, its inputs, callbacks and checks.  The solvers and the loss are
used through their contracts (als_kernels.py, als_python.py): a solver call replaces every row of its first factors by a
function of the row, the interactions, both factors and the regularization."""
from contract import *  # noqa
from als_python import als_model
import lib_rand

MOD = "implicit.cpu.als"
NAT = "implicit.cpu._als"


def content(ip, a):
    e = ip.elem(a)
    vs = [tm.fresh("x") for _ in a.shape]
    return mk_lam(tuple(vs), ite(and_(*[and_(le(ZERO, v), lt(v, lift(n))) for v, n in zip(vs, a.shape)]), e(*vs), ZERO))


def csr_content(ip, C_):
    t = lib_np.token(ip, C_)
    return list(t)


def pre(ip, what, cond):
    ip.oblige("precondition of %s: %s" % (what[0], what[1]), cond, "contract")


def kernel(label, raises):
    def run(ip, f, a, kw):
        names = ["Cui", "X", "Y", "regularization", "num_threads", "cg_steps"]
        v = dict(zip(names, a))
        v.update(kw)
        C_, X, Y = v["Cui"], v["X"], v["Y"]
        if not ip.w.is_sparse(C_) or not C_.cls.name.startswith("csr") or not isinstance(X, Arr) or not isinstance(Y, Arr):
            raise Unsupported("arguments of the solver")
        rows, cols = ip.st.heap[C_.id]["_shape"]
        pre(ip, (label, "one row of factors per row of interactions"), eq(lift(rows), lift(X.shape[0])))
        pre(ip, (label, "factors for every column of interactions"), le(lift(cols), lift(Y.shape[0])))
        pre(ip, (label, "the same number of factors on both sides"), eq(lift(X.shape[1]), lift(Y.shape[1])))
        if X.cell == Y.cell:
            ip.oblige("precondition of %s: two different factor arrays" % label, FALSE)
        args = csr_content(ip, C_) + [content(ip, X), content(ip, Y), lift(v["regularization"])]
        if "cg" in label:
            args.append(lift(v.get("cg_steps", 3)))
        if raises:
            c = app(label + "_singular", *args, sort="B")
            if ip.choose(2) == 1:
                ip.path(c)
                raise PyRaise("LinAlgError" if "python" in label else "ValueError")
            ip.path(not_(c))
        ip.fill(X, lambda u, f: app(label, *args, u, f))
        return None
    return run


def loss(ip, f, a, kw):
    v = dict(zip(["Cui", "X", "Y", "regularization", "num_threads"], a))
    v.update(kw)
    return app("loss", *csr_content(ip, v["Cui"]), content(ip, v["X"]), content(ip, v["Y"]), lift(v["regularization"]))


SOLVERS = {(True, True): (NAT + ":least_squares_cg", "native_cg", False), (True, False): (NAT + ":least_squares", "native_direct", True),
           (False, True): (MOD + ":least_squares_cg", "python_cg", False), (False, False): (MOD + ":least_squares", "python_direct", True)}


def ghost(c, name):
    """a callback that records its calls"""
    o = c.ip.alloc({"n": ZERO}, "obj", I.ClsV("calls", None, "stub"))
    big = c.integer("cap", 0, g=lambda r, k: 60)
    its = c.ip.array((big,), lambda k: ZERO, "I", name + "_iter")
    losses = c.ip.array((big,), lambda k: ZERO, "R", name + "_loss")
    kinds = c.ip.array((big,), lambda k: ZERO, "I", name + "_kind")     # 1: a number, 2: None

    def cb(ip, a, kw):
        rec = ip.st.heap[o.id]
        n = rec["n"]
        ip.put(its, (n,), lift(a[0]), check=False)
        ip.put(kinds, (n,), ONE if a[2] is not None else num(2), check=False)
        if a[2] is not None:
            ip.put(losses, (n,), lift(a[2]), check=False)
        ip.st.heap[o.id] = {**rec, "n": add(n, ONE)}
        return None
    return I.Builtin(name, cb), o, its, losses, kinds


def make(native, cg, calc, how, fmt, fresh):
    label = "ALS.fit (%s%s%s, callback %s, %s input, %s)" % ("native " if native else "python ", "cg" if cg else "direct", ", loss" if calc else "", how, fmt,
                                                            "no factors yet" if fresh else "factors present")

    props = ["C22"] + (["C05", "C20"] if how == "none" else [])

    @contract(props, label, [MOD + ":AlternatingLeastSquares.fit", MOD + ":AlternatingLeastSquares.solver", "implicit.utils:check_csr",
                             "implicit.utils:check_random_state"])
    def run(c):
        for _, (q, lab, r) in SOLVERS.items():
            c.w.summaries[q] = kernel(lab, r)
        c.w.summaries[NAT + ":calculate_loss"] = loss
        users, items, n = c.dim("users"), c.dim("items"), c.dim("factors", 1)
        iters = c.integer("iterations", 1, g=lambda r, k: r.randint(1, 3))
        seed = c.integer("seed", 0)
        cbs = [ghost(c, "argument"), ghost(c, "attribute"), ghost(c, "spec")]
        m, X, Y = als_model(c, users, items, n, use_native=native, use_cg=cg, iterations=iters, calculate_training_loss=calc, random_state=seed,
                            cg_steps=c.integer("cg_steps", 0), fit_callback=cbs[1][0] if how in ("attribute", "both") else None,
                            _YtY=c.array("oldYtY", (n, n)), _XtX=c.array("oldXtX", (n, n)), _item_norms=c.array("oldin", (items,)), _user_norms=c.array("oldun", (users,)))
        if fmt == "coo":
            C_ = c.coo("C", users, items)
        elif fmt == "csc":
            C_ = lib_np.sparse_transpose(c.ip, c.csr("C", items, users))
        else:
            C_ = c.csr("C", users, items, dtype={"csr": None, "int": I.DType("int64")}.get(fmt), dt="I" if fmt == "int" else "R",
                       values=(lambda r: r.randint(-3, 5)) if fmt == "int" else None)
        show = c.boolean("show_progress")
        X0 = c.ip.array((users, n), lambda u, f: app("X", u, f), "R", "Xspec")
        Y0 = c.ip.array((items, n), lambda u, f: app("Y", u, f), "R", "Yspec")
        threads, reg, alpha = var("threads"), var("reg", "R"), var("alpha", "R")
        kw = {"show_progress": show}
        if how in ("argument", "both"):
            kw["callback"] = cbs[0][0]
        attrs0 = dict(c.ip.st.heap[m.id])
        m0 = None
        if fresh:
            c.ip.st.heap[m.id] = {**attrs0, "user_factors": None, "item_factors": None}
            m0 = c.ip.alloc({**attrs0, "user_factors": None, "item_factors": None, "iterations": ZERO, "fit_callback": None, "calculate_training_loss": False}, "obj", m.cls)

        def go():
            if fresh:
                c.w.call(c.ip, c.w.getattr(c.ip, m0, "fit"), [C_], {"show_progress": show})
            return c.w.call(c.ip, c.w.getattr(c.ip, m, "fit"), [C_], dict(kw))
        returned = 0
        for o in c.explore(go):
            c.at(o)
            if o.sig == "raise":
                if o.val.typ == "ModelFitError":
                    continue
                c.check("only an unsolvable system raises", not cg and o.val.typ in ("ValueError", "LinAlgError"), o.val.typ)
                continue
            returned += 1
            Xa, Ya = c.attr(m, "user_factors"), c.attr(m, "item_factors")
            if fresh:
                for w, dst, k in (("user_factors", X0, users), ("item_factors", Y0, items)):
                    src = c.attr(m0, w)
                    e = c.ip.elem(src)
                    i, f = c.index(k, n)
                    c.require("initial %s are small random numbers" % w, and_(le(ZERO, e(i, f)), lt(e(i, f), num(Fraction(1, 100)))))
                    c.check("initial %s do not use the global random state" % w, lib_rand.GLOBAL not in e(i, f).fs and not any(
                        v.args[0].startswith("entropy") for v in e(i, f).fv), "they do")
                    c.check("initial %s are random" % w, any(s.startswith("draw_Generator") for s in e(i, f).fs), "they are not")
                    c.ip.fill(dst, lambda a, b, e=e: e(a, b))
            # what the solvers must be given: alpha times the values, as CSR, and its transpose
            src = C_
            if fmt in ("coo", "csc"):
                src = lib_np.sparse_tocsr(c.ip, [C_], {})
            e = c.ip.elem(c.ip.st.heap[src.id]["data"])
            Cs = lib_np.sparse_copy(c.ip, src, data=c.ip.array((c.ip.st.heap[src.id]["_nnz"],), lambda k: mul(alpha, e(k)), "R"))
            Ct = lib_np.sparse_tocsr(c.ip, [lib_np.sparse_transpose(c.ip, Cs)], {})
            c.w.summaries["specs:solver"] = lambda ip, f, a, kw: spec_kernel(ip, SOLVERS[native, cg][1], a)
            c.w.summaries["specs:loss_of"] = loss
            c.spec("als_fit", [Cs, Ct, X0, Y0, reg, iters, cbs[2][0] if how != "none" else None, calc])
            u, i, f = c.index(users, items, n)
            c.equal("the user factors are those of the alternation", c.elem(Xa, u, f), c.elem(X0, u, f))
            c.equal("the item factors are those of the alternation", c.elem(Ya, i, f), c.elem(Y0, i, f))
            c.require("user factors with NaN never return", not_(app("isnan", c.elem(Xa, u, f), sort="B")))
            c.require("item factors with NaN never return", not_(app("isnan", c.elem(Ya, i, f), sort="B")))
            if how != "none":
                g = cbs[0] if how in ("argument", "both") else cbs[1]
                other = cbs[1] if g is cbs[0] else cbs[0]
                st = c.ip.st.heap
                c.equal("one callback per iteration", st[g[1].id]["n"], iters)
                c.equal("only one of the callbacks is called", st[other[1].id]["n"], ZERO)
                k = c.index(iters)
                c.equal("callbacks come in the order of the iterations", c.elem(g[2], k), k)
                c.equal("the loss is passed exactly when it is calculated", c.elem(g[4], k), ONE if calc else num(2))
                if calc:
                    c.equal("the loss passed is the one after the iteration", c.elem(g[3], k), c.elem(cbs[2][3], k))
            for w in ("_YtY", "_XtX", "_item_norms", "_user_norms"):
                c.check("%s is not a leftover of other factors" % w, c.attr(m, w) is None, "kept")
            for w in attrs0:
                if w not in ("user_factors", "item_factors", "_YtY", "_XtX", "_item_norms", "_user_norms"):
                    c.check("the setting %s is unchanged" % w, c.ip.same(c.attr(m, w), attrs0[w]), "changed")
            k = c.index(var("nnz_C"))
            c.equal("the interactions passed in are unchanged", c.elem(c.ip.st.heap[C_.id]["data"], k), app("data_C", k, sort="I" if fmt == "int" else "R"))
        c.check("fit can return", returned > 0, "every path raises")


def spec_kernel(ip, label, a):
    C_, X, Y, reg = a[:4]
    args = csr_content(ip, C_) + [content(ip, X), content(ip, Y), lift(reg)]
    if "cg" in label:
        args.append(var("cg_steps"))
    ip.fill(X, lambda u, f: app(label, *args, u, f))


for native in (True, False):
    for cg in (True, False):
        make(native, cg, False, "none", "csr", False)
make(True, True, False, "none", "csr", True)
make(True, False, False, "none", "csr", True)
for fmt in ("int", "coo", "csc"):
    make(True, True, False, "none", fmt, False)
for how in ("argument", "attribute", "both"):
    for calc in (True, False):
        make(True, True, calc, how, "csr", False)
