"""Contracts of the Python side of ALS (implicit/cpu/als.py)."""
from contract import *  # noqa
import terms as tm
from als_kernels import system, csr_fns, Yf, Xf, ssum, setup
from lib_c import solve_term

MOD = "implicit.cpu.als"
DT = I.DType


def als_model(c, users, items, n, **kw):
    X = c.array("X", (users, n), dtype="float32")
    Y = c.array("Y", (items, n), dtype="float32")
    attrs = dict(kw)
    if "iterations" not in kw:
        attrs["iterations"] = c.integer("iterations", 0, g=lambda r, k: r.randint(0, 2))
    attrs = dict(user_factors=X, item_factors=Y, factors=n, regularization=c.real("reg"), alpha=c.real("alpha"),
                 dtype=DT("float32"), use_native=True, use_cg=True, iterations=attrs["iterations"],
                 calculate_training_loss=False, num_threads=c.integer("threads"), random_state=None, fit_callback=None, cg_steps=num(3),
                 _YtY=None, _XtX=None, _item_norms=None, _user_norms=None)
    attrs.update(kw)
    return c.model(MOD, "AlternatingLeastSquares", **attrs), X, Y


@contract(["C06"], "als.least_squares (python)", [MOD + ":least_squares", MOD + ":user_factor", MOD + ":user_linear_equation"])
def py_direct(c):
    users, items, n, C_, X, Y = setup(c)
    reg = c.real("reg")
    P, Ix, Da = csr_fns()
    for o in c.call(MOD + ":least_squares", [C_, X, Y, reg], {}):
        c.at(o)
        if o.sig == "raise":
            c.check("only an unsolvable system raises", o.val.typ == "LinAlgError", o.val.typ)
            continue
        u, f = c.index(users, n)
        A, b = system(Yf, n, items, P(u), P(add(u, ONE)), Ix, Da, reg)
        x, info = solve_term(n, A, b, f)
        c.equal("every row holds the solution of its normal equations", c.elem(X, u, f), x)
        i = c.index(items)
        c.equal("the other side's factors are unchanged", c.elem(Y, i, f), Yf(i, f))


@contract(["C07"], "als.least_squares_cg (python)", [MOD + ":least_squares_cg"])
def py_cg(c):
    c.ip.naming = True
    users, items, n, C_, X, Y = setup(c)
    reg = c.real("reg")
    steps = c.integer("cg_steps", 0, g=lambda r, k: r.randint(0, 3))
    P, Ix, Da = csr_fns()
    for o in c.call(MOD + ":least_squares_cg", [C_, X, Y, reg], {"cg_steps": steps}):
        c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        u, f = c.index(users, n)
        got = c.elem(X, u, f)
        A, b = system(Yf, n, items, P(u), P(add(u, ONE)), Ix, Da, reg)
        Am, bv = c.ip.array((n, n), A, "R", "A"), c.ip.array((n,), b, "R", "b")
        X2 = c.ip.array((users, n), Xf, "R", "Xspec")
        c.spec("cg", [Am, bv, X2, u, steps])
        c.equal("a row is advanced by cg_steps CG steps", got, c.elem(X2, u, f))
        i = c.index(items)
        c.equal("the other side's factors are unchanged", c.elem(Y, i, f), Yf(i, f))


def recalc(side):
    me, other = ("user", "item") if side == "user" else ("item", "user")

    def run(c, scalar):
        users, items, n, q = c.dim("users"), c.dim("items"), c.dim("factors", 1), c.dim("q")
        m, X, Y = als_model(c, users, items, n)
        size = items if side == "user" else users
        F = Yf if side == "user" else Xf
        cols = c.integer("cols", 0, g=lambda r, k: r.randint(0, k["items"] + 1))
        rows = c.dim("rows")
        C_ = c.csr("C", rows, cols, dtype="float32")
        ids = c.integer("id", 0) if scalar else c.array("ids", (q,), "I")
        P, Ix, Da = csr_fns()
        cnt = ONE if scalar else q
        alpha, reg = var("alpha", "R"), var("reg", "R")
        for o in c.method(m, "recalculate_" + side, [ids, C_]):
            v = c.at(o)
            bad = or_(ne(rows, cnt), lt(size, cols))
            if o.sig == "raise":
                if o.val.typ == "ValueError":
                    pass    # a mismatch, or an unsolvable system (info of the solver is opaque)
                else:
                    c.fail("raises only ValueError", o.val.typ)
                continue
            c.require("a shape mismatch never returns", not_(bad))
            r, f = (ZERO, c.index(n)) if scalar else c.index(q, n)
            A, b = system(F, n, size, P(r), P(add(r, ONE)), Ix, lambda k: mul(alpha, Da(k)), reg)
            x, info = solve_term(n, A, b, f)
            got = c.elem(v, f) if scalar else c.elem(v, r, f)
            c.equal("each returned row solves its normal equations with alpha applied", got, ite(eq(P(r), P(add(r, ONE))), ZERO, x))
            c.require("one row per id", eq(lift(v.shape[0]), n if scalar else q))
            u, i = c.index(users, items)
            c.equal("user factors unchanged", c.elem(c.attr(m, "user_factors"), u, f), Xf(u, f))
            c.equal("item factors unchanged", c.elem(c.attr(m, "item_factors"), i, f), Yf(i, f))
            k = c.index(var("nnz_C"))
            c.equal("the interactions passed in are unchanged", c.elem(c.attr(C_, "data"), k), Da(k))
    for scalar in (True, False):
        contract(["C06", "C20", "C05"] if True else [], "recalculate_%s (%s)" % (side, "scalar" if scalar else "array"),
                 [MOD + ":AlternatingLeastSquares.recalculate_" + side])(lambda c, scalar=scalar: run(c, scalar))


recalc("user")
recalc("item")
