"""Terms of the verification conditions: hash-consed, with canonical polynomials, sums, conditionals,
lambda terms and simultaneous recurrences.

op      args
num     (Fraction,)
var     (name,)
app     (function name, T...)          uninterpreted, or interpreted by name (exp, sqrt, inv, ...)
poly    ((monomial, coef)...)          monomial = ((atom, exponent)...), sorted by id
sum     (var, lo, hi, body)            sum over lo <= var < hi, var an integer
ite     (cond, a, b)
lam     (vars tuple, body)
rec     (meta, k, idx..., init lams..., step lams...)    component meta[0] of a simultaneous recurrence after k steps
booleans: true false not and or le(p)  [p <= 0]  lt(p) [p < 0, reals]  eq(p) [p = 0]  eqo(a, b) [equality of objects]
         forall/exists (vars, body)

Bound variables are named $h by height, so alpha-equivalent terms are the same object."""
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count(1)
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "fs", "mb", "has", "_s")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("a symbolic term has no truth value")


def _children(op, args):
    if op == "poly":
        for m, c in args:
            for a, e in m:
                yield a
    else:
        for a in args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        yield b


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.sort, t.id = op, args, sort, next(_ids)
    t._s = None
    fv, fs, mb, has = set(), set(), 0, 0
    if op == "var":
        fv.add(t)
    elif op == "num":
        pass
    else:
        for c in _children(op, args):
            fv |= c.fv
            fs |= c.fs
            mb = max(mb, c.mb)
            has |= c.has
        if op == "app":
            fs.add(args[0])
        if op in ("sum", "ite", "rec", "lam", "forall", "exists"):
            has |= {"sum": 1, "ite": 2, "rec": 4, "lam": 8, "forall": 16, "exists": 16}[op]
        if op == "sum":
            fv.discard(args[0])
            if args[0].args[0][0] == "$":
                mb = max(mb, int(args[0].args[0][1:]))
        elif op in ("lam", "forall", "exists"):
            for v in args[0]:
                fv.discard(v)
                if v.args[0][0] == "$":
                    mb = max(mb, int(v.args[0][1:]))
        elif op == "rec":
            h = args[0][2]
            mb = max(mb, h)
            pre = "st$%d:" % h
            fs = {f for f in fs if not f.startswith(pre)}
    t.fv = frozenset(fv) if fv else EMPTY
    t.fs = frozenset(fs) if fs else EMPTY
    t.mb, t.has = mb, has
    _tab[key] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def num(x):
    if isinstance(x, bool):
        x = int(x)
    x = Fraction(x)
    return mk("num", (x,), "I" if x.denominator == 1 else "R")


ZERO, ONE = num(0), num(1)
_fresh = itertools.count(1)


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(name="v", sort="I"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def T_(x):
    if isinstance(x, T):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    raise TypeError("not a term: %r" % (x,))


def isnum(t, v=None):
    return t.op == "num" and (v is None or t.args[0] == v)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    sort = "I"
    for m, c in items:
        if c.denominator != 1 or any(a.sort != "I" for a, e in m):
            sort = "R"
            break
    return mk("poly", items, sort)


def add(*ts):
    p = {}
    for t in ts:
        t = T_(t)
        if t.sort not in ("I", "R"):
            t = b2i(t)
        for m, c in to_poly(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p)


def b2i(t):
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    if t.sort in ("I", "R"):
        return t
    raise TypeError("number expected, got %s of sort %s" % (show(t)[:80], t.sort))


def mul(a, b):
    a, b = b2i(T_(a)), b2i(T_(b))
    if isnum(a, 0) or isnum(b, 0):
        return ZERO
    if isnum(a, 1):
        return b
    if isnum(b, 1):
        return a
    p = {}
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 3000:
        raise Budget("polynomial too large")
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mmul(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


class Budget(Exception):
    pass


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    a = b2i(T_(a))
    if a.op == "num":
        if a.args[0] == 0:
            return app("inv", a, sort="R")
        return num(1 / a.args[0])
    if a.op == "poly" and len(a.args) == 1:      # c*x*y -> products of inverses
        (m, c), = a.args
        r = num(1 / c)
        for x, e in m:
            for _ in range(e):
                r = mul(r, inv(x))
        return r
    if a.op == "app" and a.args[0] == "inv":     # 1/(1/x) = x, also for the totalised 1/0 := 0
        return a.args[1]
    if a.op == "ite":
        return ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
    return app("inv", a, sort="R")


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def app(f, *args, sort="R"):
    args = tuple(T_(a) for a in args)
    if f == "exp" and isnum(args[0], 0):
        return ONE
    if f in ("sqrt", "exp", "log", "log1p", "log2", "abs") and args[0].op == "ite":
        c, a, b = args[0].args
        return ite(c, app(f, a, sort=sort), app(f, b, sort=sort))
    if f == "log1p":
        return app("log", add(args[0], ONE), sort="R")
    if f == "abs":
        return ite(ge(args[0], ZERO), args[0], neg(args[0]))
    if f == "sqrt" and args[0].op == "num":
        q = args[0].args[0]
        if q >= 0:
            import math
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return num(Fraction(a, b))
    if f == "log" and isnum(args[0], 1):
        return ZERO
    return mk("app", (f,) + args, sort)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        p = a.args[0]
        if p.sort == "I":
            return le0(add(neg(p), ONE))
        return lt0(neg(p))
    if a.op == "lt":
        return le0(neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")


def and_(*xs):
    out = {}
    for x in xs:
        x = T_(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for y in list(out.values()):
        if not_(y).id in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return mk("and", tuple(out[i] for i in sorted(out)), "B")


def or_(*xs):
    out = {}
    for x in xs:
        x = T_(x)
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for y in list(out.values()):
        if not_(y).id in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return mk("or", tuple(out[i] for i in sorted(out)), "B")


def implies(a, b):
    return or_(not_(a), b)


def _scale(p, signed):
    """divide by the content (and make the leading coefficient positive when signed)"""
    items = to_poly(p)
    if not items:
        return p
    from math import gcd
    g, l = 0, 1
    for c in items.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for c in items.values():
        g = gcd(g, int(c * l))
    k = Fraction(l, g)
    if signed:
        lead = min(((tuple((a.id, e) for a, e in m), c) for m, c in items.items() if m), default=(None, Fraction(1)))[1]
        if lead < 0:
            k = -k
    return from_poly({m: c * k for m, c in items.items()})


def le0(p):
    if p.op == "num":
        return TRUE if p.args[0] <= 0 else FALSE
    if p.sort == "I":
        items = to_poly(p)
        from math import gcd
        g = 0
        for m, c in items.items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            c0 = items.get((), Fraction(0))
            q = {m: c / g for m, c in items.items() if m}
            import math
            q[()] = Fraction(math.ceil(c0 / g))
            p = from_poly(q)
    else:
        p = _scale(p, False)
    return mk("le", (p,), "B")


def lt0(p):
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    if p.sort == "I":
        return le0(add(p, ONE))
    return mk("lt", (_scale(p, False),), "B")


def eq0(p):
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    p = _scale(p, True)
    if p.sort == "R" and all(a.sort == "I" for m, c in to_poly(p).items() for a, e in m):
        pass
    return mk("eq", (p,), "B")


def le(a, b):
    return _cmp(le0, a, b)


def lt(a, b):
    return _cmp(lt0, a, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _cmp(f, a, b):
    a, b = b2i(T_(a)), b2i(T_(b))
    for x, y, s in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and y.op != "ite" and not y.fv and len(show(x)) < 400:
            c, p, q = x.args
            return ite(c, _cmp(f, *((p, y) if not s else (y, p))), _cmp(f, *((q, y) if not s else (y, q))))
    return f(sub(a, b))


def eq(a, b):
    a, b = T_(a), T_(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort in "IRB" and b.sort in "IRB":
        return _cmp(eq0, a, b)
    if a.sort == "O" and b.sort == "O":
        if a.op == "ite":
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.op == b.op == "app" and a.args[0] == b.args[0] and a.args[0].startswith("ctor:") and len(a.args) == len(b.args):
            return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if a.op == b.op == "app" and a.args[0].startswith("ctor:") and b.args[0].startswith("ctor:"):
            return FALSE
        return mk("eqo", (a, b) if a.id < b.id else (b, a), "B")
    raise TypeError("cannot compare %s and %s" % (a.sort, b.sort))


def ne(a, b):
    return not_(eq(a, b))


def _negative_polarity(c):
    if c.op in ("not", "lt"):
        return True
    if c.op == "or":
        return True
    if c.op == "le" and c.args[0].sort == "I":
        n = not_(c)
        return show(n) < show(c)
    return False


def ite(c, a, b):
    a, b, c = T_(a), T_(b), T_(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if _negative_polarity(c):
        c, a, b = not_(c), b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    sort = a.sort if a.sort == b.sort else ("R" if {a.sort, b.sort} <= {"I", "R", "B"} else None)
    if sort is None:
        raise TypeError("ite of %s and %s" % (a.sort, b.sort))
    return mk("ite", (c, a, b), sort)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


# ---------------------------------------------------------------- binders
def _height(*bodies):
    return 1 + max(b.mb for b in bodies)


def mk_sum(v, lo, hi, body):
    lo, hi, body = T_(lo), T_(hi), b2i(T_(body))
    if isnum(body, 0):
        return ZERO
    d = sub(hi, lo)
    if d.op == "num":
        n = d.args[0]
        if n <= 0:
            return ZERO
        if n <= 4:
            return add(*[subst(body, {v: add(lo, num(i))}) for i in range(int(n))])
    if v not in body.fv:
        return mul(body, ite(lt(lo, hi), d, ZERO))
    b = var("$%d" % _height(body), "I")
    return mk("sum", (b, lo, hi, rename(body, {v: b})), body.sort)


def mk_lam(vs, body):
    vs = tuple(vs)
    if not vs:
        return body
    h = _height(body)
    ren = {v: var("$%d" % (h + i), v.sort) for i, v in enumerate(vs)}
    return mk("lam", (tuple(ren[v] for v in vs), rename(body, ren)), "L")


def mk_quant(q, vs, body):
    vs = tuple(v for v in vs if v in body.fv)
    if not vs or body in (TRUE, FALSE):
        return body
    h = _height(body)
    ren = {v: var("$%d" % (h + i), v.sort) for i, v in enumerate(vs)}
    return mk(q, (tuple(ren[v] for v in vs), rename(body, ren)), "B")


def forall(vs, body):
    return mk_quant("forall", vs, body)


def exists(vs, body):
    return mk_quant("exists", vs, body)


def mk_rec(j, k, idx, inits, steps, state_fns):
    """inits[c]: lam over the indices of component c (or a term for a scalar);  steps[c]: lam over (kvar, indices) whose
    body mentions the state before the step as app(state_fns[c], indices)"""
    k = T_(k)
    if isnum(k, 0):
        return apply(inits[j], idx)
    h = _height(*inits, *steps)
    ren = {f: "st$%d:%d" % (h, c) for c, f in enumerate(state_fns)}
    steps = tuple(rename_fn(s, ren) for s in steps)
    meta = (j, len(idx), h, len(inits))
    sort = _body_sort(steps[j], inits[j])
    return mk("rec", (meta, k) + tuple(idx) + tuple(inits) + steps, sort)


def _body_sort(*ls):
    s = {(l.args[1].sort if l.op == "lam" else l.sort) for l in ls}
    return s.pop() if len(s) == 1 else "R"


def apply(l, args):
    if l.op == "lam":
        assert len(l.args[0]) == len(args), (l, args)
        return subst(l.args[1], dict(zip(l.args[0], args)))
    assert not args, (l, args)
    return l


def rebuild(t, f):
    """same operator, children mapped by f, no binders crossed"""
    op = t.op
    if op == "poly":
        r = []
        for m, c in t.args:
            x = num(c)
            for a, e in m:
                fa = f(a)
                x = mul(x, fa if e == 1 else power(fa, e))
            r.append(x)
        return add(*r)
    if op == "app":
        if t.args[0] == "inv":
            return inv(f(t.args[1]))
        return app(t.args[0], *[f(a) for a in t.args[1:]], sort=t.sort)
    if op == "ite":
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == "not":
        return not_(f(t.args[0]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op == "le":
        return le0(f(t.args[0]))
    if op == "lt":
        return lt0(f(t.args[0]))
    if op == "eq":
        return eq0(f(t.args[0]))
    if op == "eqo":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "rec":
        k = f(t.args[1])
        return mk("rec", (t.args[0], k) + tuple(f(a) for a in t.args[2:]), t.sort) if not isnum(k, 0) else \
            apply(f(t.args[2 + t.args[0][1] + t.args[0][0]]), [f(a) for a in t.args[2:2 + t.args[0][1]]])
    return t


def rename(t, m):
    """variables to variables; never captures because the new names are higher than every binder inside"""
    memo = {}
    keys = set(m)

    def go(t):
        if t.op == "var":
            return m.get(t, t)
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == "sum":
                r = mk("sum", (t.args[0], go(t.args[1]), go(t.args[2]), go(t.args[3])), t.sort)
            elif t.op in ("lam", "forall", "exists"):
                r = mk(t.op, (t.args[0], go(t.args[1])), t.sort)
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def rename_fn(t, m):
    keys = set(m)
    memo = {}

    def go(t):
        if not (t.fs & keys):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == "app" and t.args[0] in m:
                r = mk("app", (m[t.args[0]],) + tuple(go(a) for a in t.args[1:]), t.sort)
            elif t.op == "sum":
                r = mk("sum", (t.args[0], go(t.args[1]), go(t.args[2]), go(t.args[3])), t.sort)
            elif t.op in ("lam", "forall", "exists"):
                r = mk(t.op, (t.args[0], go(t.args[1])), t.sort)
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def subst(t, m, fns=None):
    """capture-avoiding substitution of variables (m) and of functions (fns: name -> python callable on terms)"""
    fns = fns or {}
    fkeys = set(fns)

    def run(t, m):
        keys = set(m)
        memo = {}

        def go(t):
            if t.op == "var":
                return m.get(t, t)
            if not (t.fv & keys) and not (t.fs & fkeys):
                return t
            r = memo.get(t.id)
            if r is not None:
                return r
            if t.op == "sum":
                v = fresh("s")
                r = mk_sum(v, go(t.args[1]), go(t.args[2]), run(t.args[3], {**m, t.args[0]: v}))
            elif t.op in ("lam", "forall", "exists"):
                vs = [fresh("s", x.sort) for x in t.args[0]]
                b = run(t.args[1], {**m, **dict(zip(t.args[0], vs))})
                r = mk_lam(vs, b) if t.op == "lam" else mk_quant(t.op, vs, b)
            elif t.op == "rec":
                j, n, h, nc = t.args[0]
                names = ["st!%d" % next(_fresh) for _ in range(nc)]
                ren = {"st$%d:%d" % (h, c): names[c] for c in range(nc)}
                idx = [go(a) for a in t.args[2:2 + n]]
                inits = [go(a) for a in t.args[2 + n:2 + n + nc]]
                steps = [run(rename_fn(a, ren), m) for a in t.args[2 + n + nc:]]
                r = mk_rec(j, go(t.args[1]), idx, inits, steps, names)
            elif t.op == "app" and t.args[0] in fns:
                r = fns[t.args[0]](*[go(a) for a in t.args[1:]])
            else:
                r = rebuild(t, go)
            memo[t.id] = r
            return r
        return go(t)
    return run(t, m)


def open_binder(t, names="b"):
    """(fresh vars, body)"""
    if t.op == "sum":
        v = fresh(names)
        return v, subst(t.args[3], {t.args[0]: v})
    vs = [fresh(names, x.sort) for x in t.args[0]]
    return vs, subst(t.args[1], dict(zip(t.args[0], vs)))


def rec_parts(t):
    j, n, h, nc = t.args[0]
    a = t.args
    return j, a[1], a[2:2 + n], a[2 + n:2 + n + nc], a[2 + n + nc:], h, nc


# ---------------------------------------------------------------- printing
def show(t):
    if t._s is None:
        t._s = _show(t)
    return t._s


def _show(t):
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "var":
        return a[0]
    if op in ("true", "false"):
        return op
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x) for x in a[1:]))
    if op == "poly":
        parts = []
        for m, c in a:
            f = [show(x) + ("^%d" % e if e != 1 else "") for x, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append("*".join(f))
        return "(" + " + ".join(sorted(parts)) + ")"
    if op == "sum":
        return "S[%s=%s..%s](%s)" % (a[0].args[0], show(a[1]), show(a[2]), show(a[3]))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x) for x in a)
    if op in ("le", "lt", "eq"):
        return "(%s %s 0)" % (show(a[0]), {"le": "<=", "lt": "<", "eq": "=="}[op])
    if op == "eqo":
        return "(%s == %s)" % (show(a[0]), show(a[1]))
    if op == "not":
        return "!" + show(a[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(sorted(show(x) for x in a)) + ")"
    if op in ("lam", "forall", "exists"):
        return "%s[%s](%s)" % (op, ",".join(v.args[0] for v in a[0]), show(a[1]))
    if op == "rec":
        return "rec%s(%s)" % (a[0], ", ".join(show(x) for x in a[1:]))
    return op


def subterms(t, seen=None):
    """all subterms, binder bodies included (bound variables appear free in them)"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(_children(x.op, x.args))
