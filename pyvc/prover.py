"""Decides verification conditions.

decide(hyps, c)          True / False / None   z3
prove(hyps, goal)        Result                z3, with sums handled by the sum-product normal form below
prove_eq(hyps, a, b)     Result                equality of terms with sums, opaque functions and recurrences

Numbers are mathematical integers and reals.  1/0 is totalised to 0 (never relied on: divisors are compared with
syntactically equal divisors)."""
import itertools
import math
import time
from fractions import Fraction

import z3

from terms import *  # noqa
import terms as tm

STATS = {"queries": 0, "time": 0.0, "normal_forms": 0}
RL_SMALL, RL_BIG = 3_000_000, 60_000_000


class Result:
    __slots__ = ("status", "backend", "detail", "model")

    def __init__(self, status, backend="", detail="", model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return "Result(%s, %s, %s)" % (self.status, self.backend, self.detail[:300])


# ---------------------------------------------------------------- z3
OBJ = z3.DeclareSort("Obj")
LAM = z3.DeclareSort("Lam")
SORTS = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "O": OBJ, "L": LAM}
_z = {}
_fn = {}
_abs = {}


def zfun(name, args, sort):
    k = (name, args, sort)
    if k not in _fn:
        _fn[k] = z3.Function("%s/%s" % (name, "".join(args) + sort), *[SORTS[a] for a in args], SORTS[sort])
    return _fn[k]


def order_fv(t):
    out, seen = [], set()

    def go(x):
        if not x.fv or x.id in seen:
            return
        seen.add(x.id)
        if x.op == "var":
            out.append(x)
            return
        kids = list(tm._children(x.op, x.args))
        if x.op == "poly":
            kids = sorted(kids, key=show)
        for c in kids:
            go(c)
    go(t)
    return [v for v in out if v in t.fv]


def zabs(t):
    """sum / lam / rec as an uninterpreted function of its free variables"""
    fv = order_fv(t)
    body = rename(t, {v: var("#%d" % i, v.sort) for i, v in enumerate(fv)})
    name = "abs%d" % body.id
    if not fv:
        return z3.Const(name + "/" + t.sort, SORTS[t.sort])
    return zfun(name, tuple(v.sort for v in fv), t.sort)(*[to_z3(v) for v in fv])


def real(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def to_z3(t):
    r = _z.get(t.id)
    if r is not None:
        return r
    op, a = t.op, t.args
    if op == "num":
        q = a[0]
        r = z3.IntVal(q.numerator) if q.denominator == 1 else z3.RealVal("%d/%d" % (q.numerator, q.denominator))
    elif op == "var":
        r = z3.Const(a[0] + "/" + t.sort, SORTS[t.sort])
    elif op == "true":
        r = z3.BoolVal(True)
    elif op == "false":
        r = z3.BoolVal(False)
    elif op == "poly":
        parts = []
        isr = t.sort == "R"
        for m, c in a:
            f = []
            for x, e in m:
                zx = to_z3(x)
                if isr:
                    zx = real(zx)
                f += [zx] * e
            if c != 1 or not f:
                if isr:
                    f.insert(0, z3.RealVal("%d/%d" % (c.numerator, c.denominator)))
                else:
                    f.insert(0, z3.IntVal(c.numerator))
            p = f[0]
            for x in f[1:]:
                p = p * x
            parts.append(p)
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif op == "app":
        f = a[0]
        if f == "fdiv" and a[2].op == "num" and a[2].args[0] > 0:
            r = to_z3(a[1]) / to_z3(a[2])
        elif f == "mod" and a[2].op == "num" and a[2].args[0] > 0:
            r = to_z3(a[1]) % to_z3(a[2])
        elif f == "toint":
            r = z3.ToInt(real(to_z3(a[1])))
        else:
            if len(a) == 1:
                r = z3.Const(f + "/" + t.sort, SORTS[t.sort])
            else:
                zs, ss = [], []
                for x in a[1:]:
                    zx = to_z3(x)
                    s = x.sort
                    if s == "I" and f in REALARG:
                        zx, s = real(zx), "R"
                    zs.append(zx)
                    ss.append(s)
                r = zfun(f, tuple(ss), t.sort)(*zs)
    elif op in ("sum", "lam", "rec"):
        r = zabs(t)
    elif op == "ite":
        x, y = to_z3(a[1]), to_z3(a[2])
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        r = z3.If(to_z3(a[0]), x, y)
    elif op == "le":
        r = to_z3(a[0]) <= 0
    elif op == "lt":
        r = to_z3(a[0]) < 0
    elif op == "eq":
        r = to_z3(a[0]) == 0
    elif op == "eqo":
        r = to_z3(a[0]) == to_z3(a[1])
    elif op == "not":
        r = z3.Not(to_z3(a[0]))
    elif op == "and":
        r = z3.And(*[to_z3(x) for x in a])
    elif op == "or":
        r = z3.Or(*[to_z3(x) for x in a])
    elif op in ("forall", "exists"):
        vs = [to_z3(v) for v in a[0]]
        b = to_z3(a[1])
        r = (z3.ForAll if op == "forall" else z3.Exists)(vs, b)
    else:
        raise TypeError(op)
    _z[t.id] = r
    return r


REALARG = {"exp", "sqrt", "log", "inv", "sin", "cos", "log2"}


def background(ts):
    """facts about interpreted functions that occur in the query"""
    out = []
    seen = set()
    for t in ts:
        for s in subterms(t, seen):
            if s.op == "app":
                if any(v.args[0][0] == "$" for v in s.fv):
                    continue
                z = to_z3(s)
                if s.args[0] == "exp":
                    out.append(z > 0)
                elif s.args[0] == "sqrt":
                    x = real(to_z3(s.args[1]))
                    out.append(z3.And(z >= 0, z3.Implies(x >= 0, z * z == x)))
                elif s.args[0] == "inv":
                    x = real(to_z3(s.args[1]))
                    out.append(z3.If(x == 0, z == 0, x * z == 1))
                elif s.args[0] == "toint":
                    pass
    return out


_cache = {}


def query(hyps, goal, rl=RL_SMALL, want_model=False, quant=True):
    """is hyps => goal valid?  'proved' / 'sat' / 'unknown'"""
    if goal is TRUE or FALSE in hyps:
        return ("proved", None)
    if goal in hyps:
        return ("proved", None)
    key = (frozenset(h.id for h in hyps), goal.id, rl, quant)
    if not want_model and key in _cache:
        return _cache[key]
    t0 = time.time()
    STATS["queries"] += 1
    res = ("unknown", None)
    plain = [h for h in hyps if not (h.has & 16)]
    rounds = [plain] if (not quant or len(plain) == len(hyps)) else [plain, list(hyps)]
    for hs in rounds:
        s = z3.Solver()
        s.set("rlimit", rl)
        s.set("timeout", 20000 if rl <= RL_SMALL else 60000)
        for h in hs:
            s.add(to_z3(h))
        for b in background(list(hs) + [goal]):
            s.add(b)
        s.add(z3.Not(to_z3(goal)))
        r = s.check()
        if r == z3.unsat:
            res = ("proved", None)
            break
        if r == z3.sat and hs is rounds[-1]:
            res = ("sat", s.model() if want_model else None)
        elif r != z3.sat:
            res = ("unknown", None)
    STATS["time"] += time.time() - t0
    _cache[key] = (res[0], None)
    return res


def decide(hyps, c, rl=RL_SMALL, quant=True):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c in hyps:
        return True
    n = not_(c)
    if n in hyps:
        return False
    if query(hyps, c, rl, quant=quant)[0] == "proved":
        return True
    if query(hyps, n, rl, quant=quant)[0] == "proved":
        return False
    return None


def feasible(hyps, rl=RL_SMALL):
    """False only if the hypotheses are contradictory"""
    return query(tuple(hyps), FALSE, rl)[0] != "proved"


def simp(hyps, t, quant=False):
    """replace conditions that the hypotheses decide"""
    memo = {}
    hyps = tuple(hyps)

    def cond(c):
        if c.op in ("and", "or", "not") and not (c.has & 16):
            d = decide(hyps, c, quant=quant)
            if d is not None:
                return TRUE if d else FALSE
            return rebuild(c, cond)
        if any(v.args[0][0] == "$" for v in c.fv):
            return c
        d = decide(hyps, c, quant=quant)
        if d is None:
            return go(c) if c.op in ("le", "lt", "eq") else c
        return TRUE if d else FALSE

    def go(t):
        if not (t.has & 2) and t.sort != "B":
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.sort == "B" and t.op in ("le", "lt", "eq", "eqo", "and", "or", "not"):
            if t.op in ("and", "or", "not"):
                r = rebuild(t, go)
            else:
                if any(v.args[0][0] == "$" for v in t.fv):
                    r = t
                else:
                    d = decide(hyps, t, quant=quant)
                    r = t if d is None else (TRUE if d else FALSE)
                    if d is None and (t.has & 2):
                        r = rebuild(t, go)
        elif t.op == "ite":
            c = go(t.args[0])
            if c is TRUE:
                r = go(t.args[1])
            elif c is FALSE:
                r = go(t.args[2])
            else:
                r = ite(c, go(t.args[1]), go(t.args[2]))
        elif t.op == "sum":
            v, b = open_binder(t)
            lo, hi = go(t.args[1]), go(t.args[2])
            b2 = simp(hyps + (le(lo, v), lt(v, hi)), b, quant)
            r = mk_sum(v, lo, hi, b2)
        elif t.op in ("lam", "forall", "exists", "rec"):
            r = t
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- sum-product normal form
class Mono:
    __slots__ = ("c", "bv", "conds", "atoms")

    def __init__(self, c, bv=(), conds=frozenset(), atoms=()):
        self.c, self.bv, self.conds, self.atoms = c, bv, conds, atoms

    def mul(self, o):
        return Mono(self.c * o.c, self.bv + o.bv, self.conds | o.conds, mmul(self.atoms, o.atoms))


MAXM = 600


def spnf(t):
    """list of Mono; bound variables are fresh in every call"""
    STATS["normal_forms"] += 1
    return _sp(t)


def _sp(t):
    op = t.op
    if op == "num":
        return [Mono(t.args[0])] if t.args[0] else []
    if op == "poly":
        out = []
        for m, c in t.args:
            cur = [Mono(c)]
            for a, e in m:
                for _ in range(e):
                    fa = _sp(a)
                    if len(cur) * len(fa) > MAXM:
                        raise Budget("normal form too large")
                    cur = [x.mul(y) for x in cur for y in fa]
            out += cur
        if len(out) > MAXM:
            raise Budget("normal form too large")
        return out
    if op == "ite":
        c = t.args[0]
        out = []
        cs = frozenset(c.args) if c.op == "and" else frozenset([c])
        for m in _sp(t.args[1]):
            out.append(Mono(m.c, m.bv, m.conds | cs, m.atoms))
        n = not_(c)
        ns = frozenset(n.args) if n.op == "and" else frozenset([n])
        for m in _sp(t.args[2]):
            out.append(Mono(m.c, m.bv, m.conds | ns, m.atoms))
        return [m for m in out if not _contra(m.conds)]
    if op == "sum":
        v, body = open_binder(t, "k")
        lo, hi = t.args[1], t.args[2]
        out = []
        for m in _sp(body):
            out += _close(v, lo, hi, m)
        return out
    return [Mono(Fraction(1), (), frozenset(), ((t, 1),))]


def _contra(conds):
    return any(not_(c) in conds for c in conds)


def _solve(p, v):
    """p == 0 -> v == e, when v occurs only linearly with coefficient +-1"""
    coef, rest = None, {}
    for m, c in to_poly(p).items():
        if any(v in a.fv for a, e in m):
            if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and abs(c) == 1 and coef is None:
                coef = c
            else:
                return None
        else:
            rest[m] = c
    if coef is None:
        return None
    e = mul(num(-1 / coef), from_poly(rest))
    return e if e.sort == "I" else None


def _close(v, lo, hi, m):
    for c in m.conds:
        if c.op == "eq":
            e = _solve(c.args[0], v)
            if e is not None:
                s = {v: e}
                conds = set()
                for x in list(m.conds - {c}) + []:
                    y = subst(x, s)
                    if y is FALSE:
                        return []
                    conds |= set(y.args) if y.op == "and" else ({y} if y is not TRUE else set())
                for y in (le(lo, e), lt(e, hi)):
                    if y is FALSE:
                        return []
                    if y is not TRUE:
                        conds.add(y)
                bv = tuple((w, subst(a, s), subst(b, s)) for w, a, b in m.bv)
                cur = [Mono(m.c, bv, frozenset(conds))]
                for a, k in m.atoms:
                    fa = _sp(subst(a, s))
                    for _ in range(k):
                        cur = [x.mul(y) for x in cur for y in fa]
                return [x for x in cur if not _contra(x.conds)]
    dep = any(v in a.fv for a, _ in m.atoms) or any(v in c.fv for c in m.conds) or any(v in (x.fv | y.fv) for _, x, y in m.bv)
    if not dep:
        c = lt(lo, hi)
        if c is FALSE:
            return []
        base = Mono(m.c, m.bv, m.conds | ({c} if c is not TRUE else set()), m.atoms)
        return [base.mul(x) for x in _sp(sub(hi, lo))]
    return [Mono(m.c, m.bv + ((v, lo, hi),), m.conds, m.atoms)]


# canonical text of terms under a naming of the bound variables
def ktext(t, nm, depth=0):
    op, a = t.op, t.args
    if op == "var":
        return nm.get(t, a[0])
    if op == "num":
        return str(a[0])
    if not (t.has) or op in ("le", "lt", "eq", "eqo", "not", "and", "or", "app"):
        if op == "app":
            return a[0] + "(" + ",".join(ktext(x, nm, depth) for x in a[1:]) + ")"
        if op == "poly" and not t.has:
            parts = []
            for m, c in a:
                f = sorted(ktext(x, nm, depth) + ("^%d" % e if e != 1 else "") for x, e in m)
                parts.append("%s*%s" % (c, "*".join(f)))
            return "(" + "+".join(sorted(parts)) + ")"
        if op in ("le", "lt", "eq"):
            return op + "0" + _kpoly(a[0], nm, depth, op)
        if op == "eqo":
            return "eqo(" + ",".join(sorted(ktext(x, nm, depth) for x in a)) + ")"
        if op in ("not", "and", "or"):
            return op + "(" + ",".join(sorted(ktext(x, nm, depth) for x in a)) + ")"
        if op in ("true", "false"):
            return op
    if op in ("lam", "forall", "exists"):
        vs, b = open_binder(t)
        nm2 = dict(nm)
        for i, v in enumerate(vs):
            nm2[v] = "L%d.%d" % (depth, i)
        return "%s[%d]{%s}" % (op, len(vs), ktext(b, nm2, depth + 1))
    if op == "rec":
        return "rec%s(%s)" % (a[0], ",".join(ktext(x, nm, depth + 1) for x in a[1:]))
    # sums, conditionals, polynomials over them
    try:
        ms = combine(spnf(t), nm, depth + 1)
    except Budget:
        return show(t)
    return "{" + "+".join(sorted("%s*%s" % (c, k) for k, (c, _) in ms.items())) + "}"


def _kpoly(p, nm, depth, op):
    s = ktext(p, nm, depth)
    if op == "eq":
        return min(s, ktext(neg(p), nm, depth))
    return s


def mono_key(m, nm, depth, ranges=True):
    """canonical text over all orders of the bound variables; returns (text, ordered bvs)"""
    n = len(m.bv)
    best = None
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for p in perms:
        nm2 = dict(nm)
        for i, j in enumerate(p):
            nm2[m.bv[j][0]] = "B%d.%d" % (depth, i)
        at = sorted(ktext(a, nm2, depth + 1) + "^%d" % e for a, e in m.atoms)
        if ranges:
            rg = ["%s..%s" % (ktext(m.bv[j][1], nm2, depth + 1), ktext(m.bv[j][2], nm2, depth + 1)) for j in p]
            cs = sorted(ktext(c, nm2, depth + 1) for c in m.conds)
            k = "|".join(["*".join(at), ";".join(rg), "&".join(cs)])
            kk = k
        else:
            rg = ["%s..%s" % (ktext(m.bv[j][1], nm2, depth + 1), ktext(m.bv[j][2], nm2, depth + 1)) for j in p]
            cs = sorted(ktext(c, nm2, depth + 1) for c in m.conds)
            k = "*".join(at) + "|%d" % n
            kk = k + "|" + ";".join(rg) + "|" + "&".join(cs)
        if best is None or kk < best[2]:
            best = (k, tuple(m.bv[j] for j in p), kk)
    return best[0], best[1]


def combine(ms, nm=None, depth=0):
    out = {}
    for m in ms:
        k, bv = mono_key(m, nm or {}, depth)
        if k in out:
            out[k] = (out[k][0] + m.c, out[k][1])
        else:
            out[k] = (m.c, Mono(m.c, bv, m.conds, m.atoms))
    return {k: (c, Mono(c, m.bv, m.conds, m.atoms)) for k, (c, m) in out.items() if c}


def simp_monos(hyps, ms):
    """drop conditions implied by the hypotheses and the ranges, and monomials that are never active"""
    out = []
    for m in ms:
        hs = list(hyps)
        for v, lo, hi in m.bv:
            hs += [le(lo, v), lt(v, hi)]
        conds = list(m.conds)
        keep = []
        dead = False
        for i, c in enumerate(conds):
            others = tuple(hs + keep + conds[i + 1:])
            if any(v.args[0][0] == "$" for v in c.fv):
                keep.append(c)
                continue
            if query(tuple(hs), c)[0] == "proved":
                continue
            if query(others, not_(c))[0] == "proved":
                dead = True
                break
            keep.append(c)
        if not dead:
            out.append(Mono(m.c, m.bv, frozenset(keep), m.atoms))
    return out


def group_check(hyps, ms):
    """monomials with the same atoms cancel pointwise; returns what is left"""
    groups = {}
    for m in ms:
        k, bv = mono_key(m, {}, 0, ranges=False)
        groups.setdefault(k, []).append(Mono(m.c, bv, m.conds, m.atoms))
    left = []
    for k, g in groups.items():
        n = len(g[0].bv)
        shared = [fresh("g") for _ in range(n)]
        tot = []
        atoms = None
        used = set()
        for m in g:
            s = {v: shared[i] for i, (v, _, _) in enumerate(m.bv)}
            cs = [subst(c, s) for c in m.conds]
            for i, (v, lo, hi) in enumerate(m.bv):
                cs += [le(subst(lo, s), shared[i]), lt(shared[i], subst(hi, s))]
            tot.append(ite(and_(*cs), num(m.c), ZERO))
            if atoms is None:
                atoms = [subst(a, s) for a, e in m.atoms]
        goal = or_(eq(add(*tot), ZERO), *[eq(a, ZERO) for a in atoms if a.sort in "IR"])
        if query(tuple(hyps), goal, RL_BIG)[0] != "proved":
            left += g
    return left


def orient(hyps):
    """equalities var == term in the hypotheses as a substitution"""
    m = {}
    for h in hyps:
        if h.op == "eq":
            for v in sorted(h.fv, key=lambda v: v.args[0]):
                e = _solve(h.args[0], v)
                if e is not None and v not in m and not any(w in m for w in e.fv) and not any(v in x.fv for x in m.values()):
                    m[v] = e
                    break
    return m


MAXDEPTH = 7


# ---------------------------------------------------------------- named intermediate vectors
LETS = {}            # name -> (hole functions, hole variables, index variables, body)
_let_ids = {}


def is_state(f):
    return f.startswith(("pre_", "rc!", "st!", "st$", "undet_", "undef_", "racy", "let!"))


def name_vector(vs, body):
    """an application standing for the vector body(vs); what changes from iteration to iteration is passed as argument"""
    from terms import _children
    fns, vars_ = [], []
    arity, occ = {}, {}

    def scan(t, seen):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == "app" and is_state(t.args[0]) and not t.args[0].startswith("let!"):
            f = t.args[0]
            if f not in fns:
                fns.append(f)
                arity[f] = (len(t.args) - 1, t.sort)
                occ[f] = [{x} for x in t.args[1:]]
            else:
                for s, x in zip(occ[f], t.args[1:]):
                    s.add(x)
        for x in _children(t.op, t.args):
            scan(x, seen)
    scan(body, set())
    # an index that is the same closed term in every occurrence stays outside of the name
    fixed = {}
    for f in fns:
        fx = {}
        for d, s in enumerate(occ[f]):
            if len(s) == 1:
                t = next(iter(s))
                if not (t.fv & set(vs)) and not any(v.args[0][0] == "$" for v in t.fv) and not any(is_state(g) for g in t.fs):
                    fx[d] = t
        fixed[f] = fx
    ren = {f: "hole$%d" % n for n, f in enumerate(fns)}
    tpl = subst(body, {}, {f: (lambda *xs, f=f: mk("app", (ren[f],) + tuple(x for d, x in enumerate(xs) if d not in fixed[f]), arity[f][1])) for f in fns})
    for v in sorted(tpl.fv, key=lambda v: v.args[0]):
        if v not in vs and ("~" in v.args[0] or "!" in v.args[0]):
            vars_.append(v)
    hv = [var("hv$%d" % n, v.sort) for n, v in enumerate(vars_)]
    iv = [var("hi$%d" % n) for n in range(len(vs))]
    tpl = subst(tpl, {**dict(zip(vars_, hv)), **dict(zip(vs, iv))})
    key = (tpl.id, tuple((arity[f], tuple(sorted(fixed[f]))) for f in fns), len(vs))
    nm = _let_ids.get(key)
    if nm is None:
        nm = "let!%d" % len(_let_ids)
        _let_ids[key] = nm
        LETS[nm] = ([ren[f] for f in fns], hv, iv, tpl)
    holes = []
    for f in fns:
        n = arity[f][0]
        xs = {d: fresh("x") for d in range(n) if d not in fixed[f]}
        a = mk("app", (f,) + tuple(xs.get(d, fixed[f].get(d)) for d in range(n)), arity[f][1])
        holes.append(mk_lam(list(xs.values()), a) if xs else a)
    return app(nm, *(holes + vars_ + list(vs)), sort=body.sort)


def unfold1(t):
    fn, hv, iv, body = LETS[t.args[0]]
    args = t.args[1:]
    hs, vs, ix = args[:len(fn)], args[len(fn):len(fn) + len(hv)], args[len(fn) + len(hv):]
    fns = {f: (lambda *xs, h=h: apply(h, xs) if h.op == "lam" else h) for f, h in zip(fn, hs)}
    return subst(body, {**dict(zip(hv, vs)), **dict(zip(iv, ix))}, fns)


def unfold(t):
    names = {f for f in t.fs if f.startswith("let!")}
    n = 0
    while names and n < 50:
        n += 1
        t = subst(t, {}, {f: (lambda *xs, f=f: unfold1(mk("app", (f,) + tuple(xs), LETS[f][3].sort))) for f in names})
        names = {f for f in t.fs if f.startswith("let!")}
    return t


def let_heads(t):
    """(name, hole arguments) of the named vectors outside of recurrences"""
    out, seen = [], set()
    from terms import _children

    def go(t):
        if t.id in seen or not any(f.startswith("let!") for f in t.fs):
            return
        seen.add(t.id)
        if t.op == "rec":
            return
        if t.op == "app" and t.args[0].startswith("let!"):
            fn, hv, iv, body = LETS[t.args[0]]
            k = (t.args[0], t.args[1:1 + len(fn) + len(hv)])
            if not any(v.args[0][0] == "$" for x in k[1] for v in x.fv) and k not in out:
                out.append(k)
            for x in t.args[1 + len(fn) + len(hv):]:
                go(x)
            return
        for x in _children(t.op, t.args):
            go(x)
    go(t)
    return out


_letcache = {}


def unify_lets(hyps, a, b, depth):
    ha, hb = let_heads(a), let_heads(b)
    if not ha and not hb:
        return a, b
    rep = {}
    for y in hb:
        if y in ha:
            continue
        for x in ha:
            if x in hb or len(LETS[x[0]][2]) != len(LETS[y[0]][2]):
                continue
            key = (x[0], tuple(t.id for t in x[1]), y[0], tuple(t.id for t in y[1]), tuple(h.id for h in hyps))
            r = _letcache.get(key)
            if r is None:
                ix = [fresh("li") for _ in LETS[x[0]][2]]
                u, v = (unfold(app(n, *(list(h) + ix), sort=LETS[n][3].sort)) for n, h in (x, y))
                r = bool(prove_eq(hyps, u, v, depth + 1))
                _letcache[key] = r
            if r:
                rep.setdefault(y[0], []).append((y[1], x))
                break
    if not rep:
        return a, b

    def sub_(name):
        def f(*args):
            nh = len(LETS[name][0]) + len(LETS[name][1])
            for holes, x in rep[name]:
                if tuple(args[:nh]) == tuple(holes):
                    return app(x[0], *(list(x[1]) + list(args[nh:])), sort=LETS[x[0]][3].sort)
            return mk("app", (name,) + tuple(args), LETS[name][3].sort)
        return f
    fns = {n: sub_(n) for n in rep}
    return subst(a, {}, fns), subst(b, {}, fns)


def prove_eq(hyps, a, b, depth=0):
    hyps = tuple(hyps)
    a, b = T_(a), T_(b)
    if a is b:
        return Result("proved", "syntactic")
    if time.time() > DEADLINE[0]:
        return Result("unknown", "", "time limit")
    if any(f.startswith("let!") for f in a.fs | b.fs) and a.sort != "L":
        a, b = unify_lets(hyps, a, b, depth)
        if a is b:
            return Result("proved", "named vectors")
    if depth > MAXDEPTH:
        return Result("unknown", "", "depth limit")
    if a.sort == "L" or b.sort == "L":
        if a.op == b.op == "lam" and len(a.args[0]) == len(b.args[0]):
            vs = [fresh("x", v.sort) for v in a.args[0]]
            return prove_eq(hyps, apply(a, vs), apply(b, vs), depth + 1)
        return Result("unknown", "", "different lambda terms")
    if a.sort == "B":
        return prove(hyps, eq(a, b), depth + 1)
    if a.sort == "O":
        return prove_obj(hyps, a, b, depth)
    o = orient(hyps)
    if o:
        a, b = subst(a, o), subst(b, o)
        if a is b:
            return Result("proved", "syntactic")
    if not ((a.has | b.has) & (1 | 4 | 8)):
        r = query(hyps, eq(a, b), RL_SMALL if (a.fs or b.fs) else RL_BIG)[0]
        if r == "proved":
            return Result("proved", "z3")
    try:
        d = sub(a, b)
        ms = [m for _, m in combine(spnf(d)).values()]
        if not ms:
            return Result("proved", "sum normal form")
        ms = group_check(hyps, simp_monos(hyps, ms))
        if not ms:
            return Result("proved", "sum normal form + z3")
        ms = [m for _, m in combine(ms).values()]
        if not ms:
            return Result("proved", "sum normal form + z3")
    except Budget as e:
        ms = None
    # split on a condition without bound variables
    c = pick_cond(a, b, hyps)
    if c is not None:
        r1 = prove_eq_split(hyps + (c,), a, b, depth)
        if not r1:
            return r1
        return prove_eq_split(hyps + (not_(c),), a, b, depth)
    # identify opaque terms that are provably equal
    u = unify_atoms(hyps, a, b, depth)
    if u is not None:
        a2, b2 = u
        if (a2, b2) != (a, b):
            r = prove_eq(hyps, a2, b2, depth + 1)
            if r:
                return r
    r = sum_congruence(hyps, a, b, depth)
    if r:
        return r
    r = query(hyps, eq(a, b), RL_BIG)[0]
    if r == "proved":
        return Result("proved", "z3")
    if let_heads(a) or let_heads(b):
        return prove_eq(hyps, unfold(a), unfold(b), depth + 1)
    return Result("unknown", "sum normal form + z3",
                  "left over: " + "; ".join(mono_text(m) for m in (ms or [])[:4])[:1500] if ms else "cannot show %s == %s" % (show(a)[:600], show(b)[:600]))


def mono_text(m):
    return "%s*[%s]%s(%s)" % (m.c, " & ".join(show(c) for c in m.conds), "".join("S_%s=%s..%s" % (v, l, h) for v, l, h in m.bv),
                              "*".join(show(a) + ("^%d" % e if e > 1 else "") for a, e in m.atoms))


def prove_eq_split(hyps, a, b, depth):
    if not feasible(hyps):
        return Result("proved", "z3 (case excluded)")
    return prove_eq(hyps, simp(hyps, a), simp(hyps, b), depth + 1)


def pick_cond(a, b, hyps):
    best = None
    for t in (a, b):
        for s in subterms(t):
            if s.op == "ite":
                for c in (s.args[0].args if s.args[0].op in ("and", "or") else (s.args[0],)):
                    if any(v.args[0][0] == "$" for v in c.fv) or (c.has & 16):
                        continue
                    if any(f.startswith("st$") for f in c.fs):
                        continue
                    if c in hyps or not_(c) in hyps:
                        continue
                    if best is None or len(show(c)) < len(show(best)):
                        best = c
    return best


def opaque_atoms(t):
    """maximal opaque terms outside of binders"""
    out = {}

    def go(t):
        if t.op == "poly":
            for m, c in t.args:
                for x, e in m:
                    go(x)
        elif t.op == "ite":
            go(t.args[1])
            go(t.args[2])
        elif t.op in ("app", "rec"):
            out[t.id] = t
    go(t)
    return list(out.values())


def unify_atoms(hyps, a, b, depth):
    xs, ys = opaque_atoms(a), opaque_atoms(b)
    rep = {}
    for y in ys:
        if y in xs:
            continue
        for x in xs:
            if x in ys and x not in rep.values() and False:
                continue
            if congruent(hyps, x, y, depth + 1):
                rep[y] = x
                break
    # also within one side
    for side in (xs, ys):
        for i, x in enumerate(side):
            for y in side[i + 1:]:
                if y not in rep and x not in rep and x is not y and congruent(hyps, x, y, depth + 1):
                    rep[y] = x
    if not rep:
        return None
    return replace(a, rep), replace(b, rep)


def replace(t, rep):
    memo = {}

    def go(t):
        if t in rep:
            return rep[t]
        r = memo.get(t.id)
        if r is None:
            if t.op in ("poly", "ite"):
                r = rebuild(t, go)
            else:
                r = t
            memo[t.id] = r
        return r
    return go(t)


def congruent(hyps, x, y, depth):
    if x.op != y.op or x.sort != y.sort:
        return False
    if x.op == "app":
        if x.args[0] != y.args[0] or len(x.args) != len(y.args):
            return False
        return all(prove_eq(hyps, p, q, depth + 1) for p, q in zip(x.args[1:], y.args[1:]))
    if x.op == "rec":
        return bool(prove_rec(hyps, x, y, depth))
    return False


def sum_congruence(hyps, a, b, depth):
    """linear combinations of sums over the same ranges: compare the summands"""
    d = sub(a, b)
    groups = []
    rest = []
    for m, c in to_poly(d).items():
        ss = [x for x, e in m if x.op == "sum" and e == 1]
        if not ss:
            rest.append((m, c))
            continue
        s = ss[0]
        other = from_poly({tuple((x, e) for x, e in m if x is not s): c})
        for g in groups:
            if prove_eq(hyps, g[0], s.args[1], depth + 2) and prove_eq(hyps, g[1], s.args[2], depth + 2):
                g[2].append((other, s))
                break
        else:
            groups.append((s.args[1], s.args[2], [(other, s)]))
    if not groups:
        return Result("unknown", "", "no sums")
    for lo, hi, xs in groups:
        v = fresh("q")
        body = add(*[mul(o, subst(s.args[3], {s.args[0]: v})) for o, s in xs])
        hs = hyps + (le(lo, v), lt(v, hi))
        if not feasible(hs):
            continue
        r = prove_eq(hs, simp(hs, body), ZERO, depth + 1)
        if not r:
            return r
    return prove_eq(hyps, from_poly(dict(rest)), ZERO, depth + 1)


def prove_rec(hyps, x, y, depth):
    """two simultaneous recurrences agree: a bijection between (some of) their components under which the starts are
    equal and, assuming equality before a step, equality after it"""
    j1, k1, i1, in1, st1, h1, n1 = rec_parts(x)
    j2, k2, i2, in2, st2, h2, n2 = rec_parts(y)
    if not prove_eq(hyps, k1, k2, depth + 1) or len(i1) != len(i2):
        return Result("unknown", "", "different numbers of steps")
    for p, q in zip(i1, i2):
        if not prove_eq(hyps, p, q, depth + 1):
            return Result("unknown", "", "different index")
    ar = lambda l: len(l.args[0]) if l.op == "lam" else 0
    cand = {}
    for a in range(n1):
        cand[a] = []
        for b in range(n2):
            if ar(in1[a]) != ar(in2[b]) or _sortof(in1[a]) != _sortof(in2[b]):
                continue
            vs = [fresh("x") for _ in range(ar(in1[a]))]
            if prove_eq(hyps, apply(in1[a], vs), apply(in2[b], vs), depth + 1):
                cand[a].append(b)
    names = ["rc!%d" % next(tm._fresh) for _ in range(n1)]

    def step(lam, h, ren):
        return rename_fn(lam, {"st$%d:%d" % (h, c): nm for c, nm in ren.items()})

    def closed(pairs):
        """every component that the steps of the paired ones use is paired"""
        kv = fresh("k")
        ren1 = {a: names[a] for a in range(n1)}
        ren2 = {b: names[a] for a, b in pairs.items()}
        for a, b in pairs.items():
            vs = [fresh("x") for _ in range(ar(in1[a]))]
            s1 = subst(step(st1[a], h1, ren1), {})
            s2 = step(st2[b], h2, ren2)
            t1, t2 = apply(s1, [kv] + vs), apply(s2, [kv] + vs)
            hs = hyps + (le(ZERO, kv), lt(kv, k1))
            r = prove_eq(hs, t1, t2, depth + 1)
            if not r:
                return r
        return Result("proved", "recurrence induction")

    order = [j1] + [a for a in range(n1) if a != j1]
    best = Result("unknown", "", "no matching of the recurrence components")

    def search(i, pairs):
        nonlocal best
        if i == len(order):
            r = closed(pairs)
            if r:
                return r
            best = r
            return None
        a = order[i]
        opts = [j2] if a == j1 else [b for b in cand[a] if b not in pairs.values()]
        if a == j1 and j2 not in cand[a]:
            return None
        for b in opts:
            r = search(i + 1, {**pairs, a: b})
            if r:
                return r
        return None
    r = search(0, {})
    return r or best


def _sortof(l):
    return l.args[1].sort if l.op == "lam" else l.sort


def prove_obj(hyps, a, b, depth):
    if a.op == "ite" or b.op == "ite":
        t = a if a.op == "ite" else b
        c = t.args[0]
        for h, c1 in ((c, True), (not_(c), False)):
            hs = hyps + (h,)
            if not feasible(hs):
                continue
            r = prove_obj(hs, simp(hs, a), simp(hs, b), depth + 1)
            if not r:
                return r
        return Result("proved", "case split")
    if congruent(hyps, a, b, depth):
        return Result("proved", "congruence")
    r = query(hyps, eq(a, b))[0]
    if r == "proved":
        return Result("proved", "z3")
    return Result("unknown", "", "objects %s and %s" % (show(a)[:200], show(b)[:200]))


def prove(hyps, goal, depth=0):
    """boolean goals"""
    hyps = tuple(hyps)
    if goal is TRUE:
        return Result("proved", "simplification")
    if goal.op == "and":
        for g in goal.args:
            r = prove(hyps, g, depth)
            if not r:
                return r
        return Result("proved", "z3")
    if goal.op == "forall":
        vs, body = open_binder(goal, "u")
        return prove(hyps, body, depth)
    r, model = query(hyps, goal, RL_BIG, want_model=True)
    if r == "proved":
        return Result("proved", "z3")
    if goal.op == "eq" and (goal.has & 13):
        r2 = prove_eq(hyps, goal.args[0], ZERO, depth + 1)
        if r2:
            return r2
    if goal.op == "or" and depth < 4:
        # ante => (x == 0)
        for g in goal.args:
            if g.op == "eq" and (g.has & 13):
                hs = hyps + tuple(not_(o) for o in goal.args if o is not g)
                r2 = prove_eq(hs, g.args[0], ZERO, depth + 1)
                if r2:
                    return r2
    if r == "sat":
        return Result("sat", "z3", str(model)[:1500], model)
    return Result("unknown", "z3", show(goal)[:800])


# ---------------------------------------------------------------- evaluation (for refutation)
DEADLINE = [1e18]


class Undef(Exception):
    pass


class Eval:
    """evaluates terms over a concrete sample: consts {name: value}, fns {name: callable}"""
    def __init__(self, consts, fns):
        self.c, self.f = consts, fns
        self.opaque = {}

    def __call__(self, t, env=None):
        return self.ev(t, env or {}, {})

    def ev(self, t, env, memo):
        if not t.fv or not any(v.args[0] in env for v in t.fv):
            key = t.id
            if key in memo:
                return memo[key]
            r = self._ev(t, env, memo)
            memo[key] = r
            return r
        return self._ev(t, env, memo)

    def _ev(self, t, env, memo):
        op, a = t.op, t.args
        ev = lambda x: self.ev(x, env, memo)
        if op == "num":
            q = a[0]
            return int(q) if q.denominator == 1 else q
        if op == "var":
            if a[0] in env:
                return env[a[0]]
            if a[0] in self.c:
                return self.c[a[0]]
            raise Undef(a[0])
        if op == "poly":
            s = 0
            for m, c in a:
                p = int(c) if c.denominator == 1 else c
                for x, e in m:
                    p = p * ev(x) ** e
                    if p == 0:
                        break
                s = s + p
            return s
        if op == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "and":
            return all(ev(x) for x in a)
        if op == "or":
            return any(ev(x) for x in a)
        if op == "not":
            return not ev(a[0])
        if op == "le":
            return ev(a[0]) <= 0
        if op == "lt":
            return ev(a[0]) < 0
        if op == "eq":
            v = ev(a[0])
            return v == 0
        if op == "eqo":
            return ev(a[0]) == ev(a[1])
        if op == "sum":
            lo, hi = ev(a[1]), ev(a[2])
            s = 0
            if hi - lo > 10000:
                raise Undef("large sum")
            for i in range(int(lo), int(hi)):
                s = s + self.ev(a[3], {**env, a[0].args[0]: i}, {})
            return s
        if op == "lam":
            return lambda *xs: self.ev(a[1], {**env, **{v.args[0]: x for v, x in zip(a[0], xs)}}, {})
        if op == "forall" or op == "exists":
            raise Undef("quantifier")
        if op == "app":
            f = a[0]
            if f.startswith("let!"):
                fn, hv, iv, body = LETS[f]
                xs = [ev(x) for x in a[1:]]
                f2 = dict(self.f)
                for nm, x in zip(fn, xs):
                    f2[nm] = x if callable(x) else (lambda *z, x=x: x)
                e2 = type(self).__new__(type(self))
                e2.__dict__.update(self.__dict__)
                e2.f = f2
                e2._rc, e2._lam = {}, {}
                return e2.ev(body, {v.args[0]: x for v, x in zip(tuple(hv) + tuple(iv), xs[len(fn):])}, {})
            xs = [ev(x) for x in a[1:]]
            if f in self.f:
                return self.f[f](*xs)
            if f == "inv":
                if xs[0] == 0:
                    raise Undef("division by zero")
                return Fraction(1) / xs[0] if isinstance(xs[0], (int, Fraction)) else 1.0 / xs[0]
            if f == "exp":
                if xs[0] > 500:
                    raise Undef("overflow")
                return math.exp(xs[0])
            if f == "sqrt":
                if xs[0] < 0:
                    raise Undef("sqrt")
                return math.sqrt(xs[0])
            if f == "log":
                if xs[0] <= 0:
                    raise Undef("log")
                return math.log(xs[0])
            if f == "fdiv":
                return xs[0] // xs[1]
            if f == "mod":
                return xs[0] % xs[1]
            if f == "toint":
                return math.floor(xs[0])
            raise Undef(f)
        if op == "rec":
            j, k, idx, inits, steps, h, nc = rec_parts(t)
            kk = ev(k)
            ix = [ev(x) for x in idx]
            ck = None
            if not any(v.args[0] in env for x in inits + steps for v in x.fv):
                ck = (tuple(x.id for x in inits + steps), kk)
                got = self.__dict__.setdefault("_rc", {}).get(ck)
                if got is not None:
                    return got[j](*ix)
            state = [(ev(i) if i.op == "lam" else (lambda v: (lambda *z: v))(ev(i))) for i in inits]
            for n in range(int(kk)):
                tabs = [_Memo(s) for s in state]
                f2 = dict(self.f)
                for c in range(nc):
                    f2["st$%d:%d" % (h, c)] = tabs[c]
                e2 = type(self).__new__(type(self))
                e2.__dict__.update(self.__dict__)
                e2.f = f2
                e2._rc, e2._lam = {}, {}
                state = [(lambda st, n=n, e2=e2: (lambda *z: e2.ev(st.args[1], {**env, **{v.args[0]: x for v, x in zip(st.args[0], (n,) + z)}}, {})))(s)
                         for s in steps]
            state = [_Memo(s) for s in state]
            if ck is not None:
                self._rc[ck] = state
            return state[j](*ix)
        raise Undef(op)


class _Memo:
    def __init__(self, f):
        self.f, self.m = f, {}

    def __call__(self, *a):
        if a not in self.m:
            self.m[a] = self.f(*a)
        return self.m[a]
