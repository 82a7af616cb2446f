"""Contract of AlternatingLeastSquares.explain (C19).  A row stores no item twice and no zero (both are what check_csr's callers pass:
an explicit zero is neither liked nor disliked); alpha is positive."""
from contract import *  # noqa
from als_kernels import system, csr_fns, Yf, Xf, ssum
from als_python import als_model
from als_partial import CACHES, coherent
from headers import kept
from interp import is_scalar, lift
from lib_c import solve_term
import lib_cpp as X
import lib_heapq as Q

MOD = "implicit.cpu.als"
ALS = MOD + ":AlternatingLeastSquares"


def explained(label, weights, plain):
    @contract(["C19", "C05", "C09"], "explain (%s)" % label, [ALS + ".explain", MOD + ":user_linear_equation"])
    def run(c):
        Q.use(c.w)
        users, items, n = c.dim("users"), c.dim("items", 1), c.dim("factors", 1)
        m, Xa, Y = als_model(c, users, items, n, **({"alpha": Fraction(1)} if plain else {}))
        alpha, reg = ONE if plain else var("alpha", "R"), var("reg", "R")
        if not plain:
            c.given(lt(ZERO, alpha))
        rows = c.dim("rows", 1)
        C_ = c.csr("C", rows, items, dtype="float32", values=lambda r: Fraction(r.choice([-2, -1, 1, 2, 3])))
        P, Ix, Da = csr_fns()
        u = c.integer("userid", 0, g=lambda r, d: r.randint(0, d["rows"] - 1))
        it = c.integer("itemid", 0, g=lambda r, d: r.randint(0, d["items"] - 1))
        c.given(lt(u, rows))
        c.given(lt(it, items))
        N_ = c.integer("N", 0, g=lambda r, d: r.randint(0, 4))
        lo, hi = P(u), P(add(u, ONE))
        pos = lambda x: app("position", x, sort="I")
        c.hooks["position"] = lambda ev, a: 0
        k = tm.fresh("k")
        inrow = lambda k: and_(le(lo, k), lt(k, hi))
        c.assume(forall([k], implies(inrow(k), eq(pos(Ix(k)), k))))
        k = tm.fresh("k")
        c.assume(forall([k], ne(Da(k), ZERO)))
        conf = lambda k: mul(alpha, Da(k))
        A, b = system(Yf, n, items, lo, hi, Ix, conf, reg)
        w = lambda f: solve_term(n, A, lambda g: Yf(it, g), f)[0]
        # names for the weighted item, a contribution, and the running total and count; the definitions are added where they are needed
        W = lambda f: app("weighted", f)
        share_ = lambda k: mul(conf(k), ssum(0, n, lambda f: mul(W(f), Yf(Ix(k), f))))
        share = lambda k: app("share", k)
        counted = lambda k: lt(ZERO, Da(k))
        total, count = (lambda k: app("total", k)), (lambda k: app("count", k, sort="I"))
        for nm in ("weighted", "share", "total", "count"):
            c.hooks[nm] = lambda ev, a: Fraction(0)

        def define(ip, k):
            ok = lambda f: ip.assume(implies(le(lo, k), f))
            ok(le(ZERO, count(k)))
            ok(eq(count(add(k, ONE)), add(count(k), ite(counted(k), ONE, ZERO))))
            ok(eq(total(add(k, ONE)), add(total(k), ite(counted(k), share(k), ZERO))))
        c.assume(eq(count(lo), ZERO))
        c.assume(eq(total(lo), ZERO))
        seen = lambda k: lambda x: and_(le(lo, pos(x)), lt(pos(x), k), eq(Ix(pos(x)), x), counted(pos(x)))
        score = lambda x: share(pos(x))
        done = []
        c.equal("the contributions sum to the weighted item times the right hand side of the normal equations",
                ssum(lo, hi, lambda j: ite(counted(j), share_(j), ZERO)), ssum(0, n, lambda f: mul(W(f), b(f))))

        def invariant(ip, node, base, locs, i, l0, h0):
            ids = {l[1] for l in locs if l[0] == "key" and l[2] == "_size"}
            if len(ids) != 1:
                return None
            h = H(ids.pop(), "obj", X.HEAP)
            done.append(h)
            off = sub(lo, l0)       # the loop may count from zero
            scalars = [l for l in locs if l[0] == "var"]

            def at(ip, j):
                j = add(j, off)
                define(ip, sub(j, ONE))
                out = [("the interactions are walked in order", and_(le(lo, j), le(j, hi)))] + kept(ip, h, N_, seen(j), count(j), score)
                x = tm.fresh("x")
                has = X.parts(ip, h)
                out.append(("a heap of no pairs holds none", forall([x], implies(has[1](x), lt(ZERO, lift(has[0]["_size"]))))))
                for l in scalars:
                    v0, v = base.fr[l[1]].get(l[2]), ip.st.fr[l[1]].get(l[2])
                    if not is_scalar(v0) or not is_scalar(v) or not isnum(lift(v0), 0):
                        continue
                    ip.assume(eq(share(sub(j, ONE)), share_(sub(j, ONE))))
                    out.append(("the running total", eq(lift(v), total(j))) if lift(v).sort == "R" else ("the running length", eq(lift(v), min_(N_, count(j)))))
                return out
            return at
        c.w.invariant = invariant
        solve = c.w.models["scipy.linalg.cho_solve"]

        used = set()

        def cho_solve(ip, a, kw):
            r = solve(ip, a, kw)
            used.add(a[0][0].cell)
            e, f = ip.elem(r), ip.new("f")
            st = ip.st.copy()
            ip.assume(and_(le(ZERO, f), lt(f, n)))
            ip.oblige("the weighted item solves the normal equations of the user's row", eq(e(f), w(f)))
            ip.st = st
            return ip.array((n,), W, "R")
        c.w.models["scipy.linalg.cho_solve"] = cho_solve

        def pushing(f):
            def run(ip, a, kw):
                h, v = a
                if not (isinstance(v, tuple) and len(v) == 2):
                    raise Unsupported("another element of the heap")
                s, x = lift(v[0]), lift(v[1])
                k = x.args[1] if x.op == "app" and len(x.args) == 2 and Ix(x.args[1]) is x else pos(x)
                ip.oblige("what is pushed belongs to an item of the row", and_(inrow(k), eq(Ix(k), x)))
                ip.oblige("what is pushed is a contribution of the row", eq(s, share_(k)))
                ip.assume(eq(pos(x), k))
                return f(ip, [h, (share(pos(x)), x)], kw)
            return run
        for nm in ("heappush", "heappushpop", "heapreplace"):
            c.w.models["heapq." + nm] = pushing(c.w.models["heapq." + nm])
        args = [u, C_, it]
        kw = {"N": N_}
        if weights:
            kw["user_weights"] = Q.cho_factor(c.ip, [c.ip.array((n, n), A, "R", "A")], {})
        for o in c.method(m, "explain", args, kw):
            v = c.at(o)
            if o.sig == "raise":
                c.check("only a system that is not positive definite raises", o.val.typ == "LinAlgError" and not weights, o.val.typ)
                continue
            if not isinstance(v, tuple) or len(v) != 3:
                c.fail("total, contributions and weights are returned", str(type(v)))
                continue
            c.equal("the total is the sum of all contributions", lift(v[0]), total(hi))
            num_, at = c.ip.w.sequence(c.ip, v[1])
            if num_ is None:
                raise Unsupported("the list of contributions")
            c.equal("min(N, positive interactions) contributions", lift(num_), min_(N_, count(hi)))
            p, q = c.index(lift(num_), lift(num_))
            (i1, s1), (i2, s2) = at(p), at(q)
            i1, i2, s1, s2 = (lift(x) for x in (i1, i2, s1, s2))
            c.require("a contribution belongs to a positive interaction of the row", seen(hi)(i1))
            c.equal("a contribution is confidence times the weighted product", s1, score(i1))
            st = c.ip.st.copy()
            c.assume(lt(p, q))
            c.require("contributions do not increase", le(s2, s1))
            c.require("items are distinct", ne(i1, i2))
            c.ip.st = st.copy()
            x, t = c.index(items), tm.fresh("t")
            c.assume(seen(hi)(x))
            c.assume(forall([t], implies(and_(le(ZERO, t), lt(t, lift(num_))), ne(lift(at(t)[0]), x))))
            c.require("no contribution left out is larger", le(score(x), s1))
            c.ip.st = st
            if not (isinstance(v[2], tuple) and len(v[2]) == 2 and isinstance(v[2][0], Arr)):
                raise Unsupported("the weights returned")
            ch = c.w.cho.get(v[2][0].cell)
            c.check("the weights returned are those of the system solved", ch is not None and v[2][0].cell in used and v[2][1] is ch[2]
                    and c.ip.st.heap[v[2][0].cell].at((var("i!"), var("j!"))) is ch[3])
            f = c.index(n)
            i, j = c.index(items), c.index(users)
            c.equal("item factors unchanged", c.elem(c.attr(m, "item_factors"), i, f), Yf(i, f))
            c.equal("user factors unchanged", c.elem(c.attr(m, "user_factors"), j, f), Xf(j, f))
            for nm in CACHES:
                coherent(c, m, nm)
            kk = c.index(var("nnz_C"))
            c.equal("the interactions passed in are unchanged", c.elem(c.attr(C_, "data"), kk), Da(kk))
        if not done:
            raise Unsupported("no loop over the interactions")


explained("weights computed", False, False)
explained("weights passed in", True, False)
explained("alpha 1", False, True)
