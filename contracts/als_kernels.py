"""Contracts of the native ALS kernels (implicit/cpu/_als.pyx)."""
from contract import *  # noqa
import terms as tm

MOD = "implicit.cpu._als"


def setup(c):
    users, items, n = c.dim("users"), c.dim("items"), c.dim("factors", 1)
    C_ = c.csr("C", users, items, dtype="float32")
    X = c.array("X", (users, n), dtype="float32")
    Y = c.array("Y", (items, n), dtype="float32")
    return users, items, n, C_, X, Y


def ssum(lo, hi, f):
    k = tm.fresh("k")
    return mk_sum(k, T_(lo), T_(hi), f(k))


def absv(x):
    return ite(lt(ZERO, x), x, neg(x))


def system(Y, n, items, lo, hi, idx, dat, reg):
    """matrix and right hand side of the normal equations of a row"""
    def A(f, g):
        yty = ssum(0, items, lambda i: mul(Y(i, f), Y(i, g)))
        w = ssum(lo, hi, lambda k: mul(sub(absv(dat(k)), ONE), mul(Y(idx(k), f), Y(idx(k), g))))
        return add(yty, ite(eq(f, g), reg, ZERO), w)

    def b(f):
        return ssum(lo, hi, lambda k: ite(lt(ZERO, dat(k)), mul(dat(k), Y(idx(k), f)), ZERO))
    return A, b


def csr_fns():
    return (lambda u: app("indptr_C", u, sort="I"), lambda k: app("indices_C", k, sort="I"), lambda k: app("data_C", k))


def Yf(i, f):
    return app("Y", i, f)


def Xf(u, f):
    return app("X", u, f)


@contract(["C06", "C20"], "_als.least_squares", [MOD + ":least_squares", MOD + ":_least_squares"])
def direct(c):
    from lib_c import solve_term
    users, items, n, C_, X, Y = setup(c)
    reg = c.real("reg")
    P, Ix, Da = csr_fns()
    outs = c.call(MOD + ":least_squares", [C_, X, Y, reg], {"num_threads": c.integer("threads")})
    for o in outs:
        c.at(o)
        if o.sig == "raise":
            c.check("only an unsolvable system raises", o.val.typ == "ValueError", o.val.typ)
            continue
        u, f = c.index(users, n)
        A, b = system(Yf, n, items, P(u), P(add(u, ONE)), Ix, Da, reg)
        x, info = solve_term(n, A, b, f)
        c.equal("every row holds the solution of its normal equations; rows without interactions are zero",
                c.elem(X, u, f), ite(eq(P(u), P(add(u, ONE))), ZERO, x))
        i = c.index(items)
        c.equal("the other side's factors are unchanged", c.elem(Y, i, f), Yf(i, f))


@contract(["C07", "C20"], "_als.least_squares_cg", [MOD + ":least_squares_cg", MOD + ":_least_squares_cg"])
def cg(c):
    c.ip.naming = True
    users, items, n, C_, X, Y = setup(c)
    reg = c.real("reg")
    steps = c.integer("cg_steps", 0, g=lambda r, k: r.randint(0, 3))
    P, Ix, Da = csr_fns()
    outs = c.call(MOD + ":least_squares_cg", [C_, X, Y, reg], {"num_threads": c.integer("threads"), "cg_steps": steps})
    for o in outs:
        c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        u, f = c.index(users, n)
        got = c.elem(X, u, f)
        A, b = system(Yf, n, items, P(u), P(add(u, ONE)), Ix, Da, reg)
        Am, bv = c.ip.array((n, n), A, "R", "A"), c.ip.array((n,), b, "R", "b")
        X2 = c.ip.array((users, n), Xf, "R", "Xspec")
        c.spec("cg", [Am, bv, X2, u, steps])
        c.equal("a row with interactions is advanced by cg_steps CG steps; a row without is zero",
                got, ite(eq(P(u), P(add(u, ONE))), ZERO, c.elem(X2, u, f)))
        i = c.index(items)
        c.equal("the other side's factors are unchanged", c.elem(Y, i, f), Yf(i, f))


@contract(["C08", "C20"], "_als.calculate_loss", [MOD + ":calculate_loss", MOD + ":_calculate_loss"])
def loss(c):
    users, items, n, C_, X, Y = setup(c)
    reg = c.real("reg")
    P, Ix, Da = csr_fns()
    outs = c.call(MOD + ":calculate_loss", [C_, X, Y, reg], {"num_threads": c.integer("threads")})
    xy = lambda u, i: ssum(0, n, lambda f: mul(Xf(u, f), Yf(i, f)))
    sq = lambda t: mul(t, t)
    nnz = var("nnz_C")
    for o in outs:
        v = c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        # all pairs with weight 1 and target 0, corrected at the stored entries
        base = ssum(0, users, lambda u: ssum(0, items, lambda i: sq(xy(u, i))))
        corr = ssum(0, users, lambda u: ssum(P(u), P(add(u, ONE)), lambda k: sub(
            mul(absv(Da(k)), sq(sub(ite(lt(ZERO, Da(k)), ONE, ZERO), xy(u, Ix(k))))), sq(xy(u, Ix(k))))))
        norms = add(ssum(0, users, lambda u: ssum(0, n, lambda f: sq(Xf(u, f)))), ssum(0, items, lambda i: ssum(0, n, lambda f: sq(Yf(i, f)))))
        weight = add(ssum(0, users, lambda u: ssum(P(u), P(add(u, ONE)), lambda k: absv(Da(k)))), sub(mul(users, items), nnz))
        c.equal("the loss is its definition", v, div(add(base, corr, mul(reg, norms)), weight))
        u, f, i = c.index(users, n, items)
        c.equal("the factors are unchanged", c.elem(X, u, f), Xf(u, f))
        c.equal("the other factors are unchanged", c.elem(Y, i, f), Yf(i, f))
