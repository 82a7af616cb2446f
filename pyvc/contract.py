"""Contracts and their discharge.

A contract is a Python function that declares symbolic inputs (each with a generator used only for refuting), executes
the real function(s) through the interpreter, and states what must hold in every outcome.  Obligations come from the
contract and from the execution (index bounds, races, preconditions of callees)."""
import math
import os
import random
import time
import traceback
from fractions import Fraction

from terms import *  # noqa
import terms as tm
import prover as pv
import interp as I
from interp import Arr, H, Interp, Unsupported, PyRaise, lift, Dead
from world import World, qual, RangeV
import lib_np
from ir import py_module

REGISTRY = []
SPECS = py_module(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "specs.py"))


def contract(props, name, functions=(), tier="quick"):
    def deco(f):
        REGISTRY.append((tuple(props), name, f, tuple(functions), tier))
        return f
    return deco


MISSING = "<no such attribute>"


POOL = []      # constants of the obligation that is being refuted: samples are also taken near them


def near(r, lo, hi, den):
    if POOL and r.random() < .3:
        v = r.choice(POOL) * r.choice([Fraction(1, 2), 1, 1, 2])
        return -v if lo < 0 and r.random() < .3 else v
    return Fraction(r.randint(lo, hi), r.choice(den))


def constants(ob):
    out = set()

    def see(v):
        v = abs(Fraction(v))
        if Fraction(1, 10 ** 6) <= v <= 10 ** 6 and (v.denominator > 3 or v > 5):
            out.add(v)
    for t in list(ob.hyps) + [ob.goal] + (list(ob.eq) if ob.eq else []):
        for x in subterms(t):
            if x.op == "num":
                see(x.args[0])
            elif x.op == "poly":
                d = dict(x.args)
                for m, q in d.items():
                    see(q)
                    if m and () in d:
                        see(d[()] / q)
    return sorted(out)[:40]


class C:
    """context of one contract"""
    def __init__(self, name):
        self.name = name
        self.w = World()
        self.w.mods["specs"] = SPECS
        self.ip = Interp(self.w)
        self.ip.push({"__module__": None, "__closure__": None})
        self.hooks = {}          # meaning of uninterpreted functions when an obligation is evaluated: name -> f(evaluator, arguments)
        self.given_ids = set()
        self.gens = []           # functions (rng, consts, fns) -> None
        self.assumptions = []
        self.extra = []
        self.bounds = True       # whether bounds/race obligations are kept

    # ---- inputs
    def dim(self, name, lo=0, hi=4, g=None, like=None):
        v = var(name)
        self.ip.assume(le(num(lo), v))
        if like is not None:
            self.gens.append(lambda r, c, f: c.__setitem__(name, max(lo, int(pv.Eval(c, f)(lift(like)))) if r.random() < .85 else r.randint(lo, max(lo, hi))))
            return v
        if g:
            self.gens.append(lambda r, c, f: c.__setitem__(name, g(r)))
            return v
        self.gens.append(lambda r, c, f: c.__setitem__(name, r.choice([lo, 1, 1, 2, 2, 3, 3, hi]) if lo <= 1 else r.randint(lo, max(lo, hi))))
        return v

    def integer(self, name, lo=None, hi=None, g=None):
        """an integer input; g(rng, consts) generates samples"""
        v = var(name)
        if lo is not None:
            self.ip.assume(le(T_(lo), v))
        if hi is not None:
            self.ip.assume(lt(v, T_(hi)))
        self.gens.append(lambda r, c, f: c.__setitem__(name, g(r, c) if g else r.randint(lo, lo + 4) if isinstance(lo, int) else r.randint(-2, 4)))
        return v

    def real(self, name, positive=False, g=None):
        v = var(name, "R")
        if positive:
            self.ip.assume(lt(ZERO, v))
        self.gens.append(lambda r, c, f: c.__setitem__(name, g(r, c) if g else near(r, 1 if positive else -4, 5, (1, 2, 3))))
        return v

    def boolean(self, name):
        v = var(name, "B")
        self.gens.append(lambda r, c, f: c.__setitem__(name, r.random() < .5))
        return v

    def array(self, name, shape, dt="R", dtype=None, g=None, cls="ndarray"):
        a = self.ip.input_array(name, shape, dt, cls)
        cell = self.ip.st.heap[a.cell]
        meta = {"dtype": I.DType(dtype)} if dtype else {}
        self.ip.st.heap[a.cell] = I.Cell(cell.shape, cell.vars, cell.body, dt, name, meta)

        def gen(r, c, f):
            tab = {}

            def at(*ix):
                if ix not in tab:
                    if g:
                        tab[ix] = g(r, c, ix)
                    elif dt == "R":
                        tab[ix] = near(r, -4, 5, (1, 1, 2))
                    elif dt == "B":
                        tab[ix] = r.random() < .5
                    else:
                        tab[ix] = r.randint(0, 3)
                return tab[ix]
            f[name] = at
        self.gens.append(gen)
        return a

    def csr(self, name, rows, cols, distinct=True, dtype=None, dt="R", cls="csr_matrix", values=None):
        have = set(self.ip.st.facts)
        o = lib_np.make_csr(self.ip, name, rows, cols, cls=cls, dt=dt, distinct=distinct, dtype=dtype)
        self.given_ids |= {f.id for f in self.ip.st.facts if f not in have}
        rn, cn = rows, cols

        def gen(r, c, f):
            e = pv.Eval(c, f)
            R, K = int(e(lift(rn))), int(e(lift(cn)))
            ptr, ix = [0], []
            for _ in range(R):
                row = [j for j in range(K) if r.random() < .6]
                r.shuffle(row)
                if row and not distinct and r.random() < .3:
                    row.append(row[0])
                ix += row
                ptr.append(len(ix))
            vals = [(values(r) if values else near(r, -3, 5, (1, 2))) for _ in ix]
            c["nnz_" + name] = len(ix)
            f["indptr_" + name] = lambda i: ptr[i] if 0 <= i < len(ptr) else ptr[-1 if i > 0 else 0]
            f["indices_" + name] = lambda i: ix[i] if 0 <= i < len(ix) else 0
            f["data_" + name] = lambda i: vals[i] if 0 <= i < len(ix) else Fraction(0)
        self.gens.append(gen)
        return o

    def coo(self, name, rows, cols, dtype=None, values=None):
        """a COO matrix without duplicate entries"""
        nnz = var("nnz_" + name)
        self.ip.assume(le(ZERO, nnz))
        ro, co = (self.ip.input_array("%s_%s" % (w, name), (nnz,), "I") for w in ("row", "col"))
        da = self.ip.input_array("data_" + name, (nnz,), "R")
        k = tm.fresh("k")
        for w, n in (("row", rows), ("col", cols)):
            f = app("%s_%s" % (w, name), k, sort="I")
            self.ip.assume(forall([k], implies(and_(le(ZERO, k), lt(k, nnz)), and_(le(ZERO, f), lt(f, lift(n))))))
        rec = {"row": ro, "col": co, "data": da, "_shape": (lift(rows), lift(cols)), "_dtype": dtype or I.DType("?" + name), "_nnz": nnz, "_tok": name}

        def gen(r, c, f):
            e = pv.Eval(c, f)
            R, K = int(e(lift(rows))), int(e(lift(cols)))
            ent = [(i, j) for i in range(R) for j in range(K) if r.random() < .6]
            r.shuffle(ent)
            vals = [(values(r) if values else near(r, 1, 5, (1, 2))) for _ in ent]
            c["nnz_" + name] = len(ent)
            f["row_" + name] = lambda i: ent[i][0] if 0 <= i < len(ent) else 0
            f["col_" + name] = lambda i: ent[i][1] if 0 <= i < len(ent) else 0
            f["data_" + name] = lambda i: vals[i] if 0 <= i < len(ent) else Fraction(0)
        self.gens.append(gen)
        return self.ip.alloc(rec, "obj", I.ClsV("coo_matrix", None, "ext"))

    def model(self, mod, cls, **attrs):
        """an instance of a class of the package with the given attributes"""
        k = self.w.resolve(self.ip, self.w.top(mod)[cls], mod)
        return self.ip.alloc(dict(attrs), "obj", k)

    def assume(self, c):
        self.ip.assume(c)

    def given(self, c):
        """a precondition that the generators of the inputs respect by construction"""
        self.ip.assume(c)
        self.given_ids.add(c.id)

    # ---- running
    def fn(self, q):
        mod, name = q.split(":")
        self.ip.cur_call = None
        parts = name.split(".")
        v = self.w.top(mod).get(parts[0])
        if v is None:
            raise Unsupported("%s is not defined in %s" % (parts[0], mod))
        v = self.w.resolve(self.ip, v, mod)
        return v

    def call(self, f, args=(), kw=None):
        """outcomes of the call on every path"""
        if isinstance(f, str):
            f = self.fn(f)
        return self.explore(lambda: self.w.call(self.ip, f, list(args), dict(kw or {})))

    def method(self, o, name, args=(), kw=None):
        return self.explore(lambda: self.w.call(self.ip, self.w.getattr(self.ip, o, name), list(args), dict(kw or {})))

    def explore(self, thunk):
        outs = []
        for o in self.ip.explore(thunk):
            if pv.feasible(o.st.facts + o.st.pc) is False:
                continue
            outs.append(o)
        return outs

    def at(self, o):
        """continue in the state of an outcome"""
        self.ip.st = o.st
        self.ip.st.fid = list(self.ip.st.fr)[0]
        return o.val

    def spec(self, name, args):
        """run a specification function; its outcomes are merged into the current state"""
        ip = self.ip
        ip.dry += 1
        try:
            outs = ip.explore(lambda: ip.run_function(I.FuncV(next(s for s in SPECS.body if s.k == "Func" and s.name == name), "specs"), list(args), {}))
            base = ip.st
            for o in outs:
                if o.sig == "raise":
                    raise Unsupported("specification %s raises %s" % (name, o.val.typ))
            cur, val, cond = None, None, None
            for o in reversed(outs):
                if cur is None:
                    cur, val = o.st, o.val
                else:
                    val = ip.mval(o.cond, o.val, val)
                    cur = ip.merge2(o.cond, o.st, cur, base)
            cur = cur.copy()
            cur.pc, cur.fid = base.pc, base.fid
            ip.st = cur
        finally:
            ip.dry -= 1
        return val

    def require(self, name, goal):
        self.ip.oblige(name, goal, "contract")
        self.extra.append(name)

    def equal(self, name, a, b):
        a, b = T_(a), T_(b)
        self.extra.append(name)
        if a is b:
            self.trivial(name)
            return
        self.ip.obl.append(I.Obligation(name, self.ip.hyps(), TRUE, "contract", (a, b)))

    def lemma(self, name, goal):
        """a step of an argument: proved here and now, then used; nothing is claimed where it does not hold"""
        hyps = self.ip.hyps()
        ob = I.Obligation("lemma: " + name, hyps, goal, "contract")
        old = pv.DEADLINE[0]
        pv.DEADLINE[0] = min(old, time.time() + 20) if old else time.time() + 20
        try:
            r = pv.prove(hyps, goal)
        except tm.Budget:
            r = None
        finally:
            pv.DEADLINE[0] = old
        if not r:
            return False
        self.ip.obl.append(ob)
        self.ip.assume(goal)
        return True

    def dead(self):
        """whether no input reaches this point (decided by z3)"""
        return pv.feasible(self.ip.hyps()) is False

    def trivial(self, name):
        self.ip.obl.append(I.Obligation(name, self.ip.hyps(), TRUE, "contract"))

    def fail(self, name, why):
        """an obligation that is false wherever the current path is feasible"""
        self.extra.append(name)
        self.ip.obl.append(I.Obligation(name + ": " + why, self.ip.hyps(), FALSE, "contract"))

    def check(self, name, ok, why=""):
        if ok:
            self.extra.append(name)
            self.trivial(name)
        else:
            self.fail(name, why)

    def index(self, *ranges):
        """fresh indices with 0 <= i < n"""
        out = []
        for n in ranges:
            i = self.ip.new("ix")
            self.ip.assume(le(ZERO, i))
            self.ip.assume(lt(i, T_(n)))
            out.append(i)
        return out[0] if len(out) == 1 else out

    def elem(self, a, *idx):
        return self.ip.elem(a)(*idx)

    def attr(self, o, name):
        d = self.ip.st.heap[o.id]
        if name in d:
            if isinstance(d[name], I.Poison):
                raise Unsupported("attribute %s: %s" % (name, d[name].why))
            return d[name]
        return None

    def public(self, o, name):
        """a public attribute, which may be a property"""
        d = self.ip.st.heap[o.id]
        if name in d:
            return self.attr(o, name)
        try:
            return self.w.getattr(self.ip, o, name)
        except PyRaise:
            return MISSING

    def vacuity(self):
        """a sampled input that satisfies the hypotheses of some contract obligation"""
        hit, n = 0, 0
        obs = [o for o in self.ip.obl if o.kind == "contract"]
        t0 = time.time()
        for ob in obs:
            n += 1
            for k in range(60):
                if time.time() - t0 > (8 if hit else 40):
                    break
                EVAL_END[0] = time.time() + 6
                r = random.Random(repr(("vac", k)))
                if sample(self, ob, r, k) is not None:
                    hit += 1
                    break
        EVAL_END[0] = 1e18
        if not hit:
            # z3's model of the hypotheses instead of a sample
            for ob in obs[:6]:
                if pv.query(ob.hyps, FALSE, pv.RL_BIG if hasattr(pv, "RL_BIG") else pv.RL_SMALL * 10)[0] == "sat":
                    hit += 1
        return {"contract_obligations": n, "with_a_concrete_witness": hit, "preconditions_satisfiable": hit > 0}


# ---------------------------------------------------------------- refutation by evaluation
D = 7
EVAL_END = [1e18]


class REval(pv.Eval):
    def __init__(self, c, f, seed, hooks=None):
        pv.Eval.__init__(self, c, f)
        self.seed = seed
        self.hooks = hooks or {}

    def key(self, x, nd=2):
        if callable(x):
            got = getattr(x, "_key", None)
            if got is not None:
                return got
            out = []
            import itertools
            n = getattr(x, "arity", 1)
            for ix in itertools.product(range(0, 5), repeat=n):
                try:
                    out.append(self.key(x(*ix)))
                except pv.Undef:
                    out.append("?")
            x._key = tuple(out)
            return x._key
        if isinstance(x, float):
            return round(x, 9)
        return x

    def _ev(self, t, env, memo):
        op, a = t.op, t.args
        if op == "lam":
            closed = not any(v.args[0] in env for v in t.fv)
            if closed and t.id in self.__dict__.setdefault("_lam", {}):
                return self._lam[t.id]
            tab = {}

            def f(*xs):
                if xs in tab:
                    return tab[xs]
                r = self.ev(a[1], {**env, **{v.args[0]: x for v, x in zip(a[0], xs)}}, {})
                if len(tab) < 5000:
                    tab[xs] = r
                return r
            try:
                f.arity = len(a[0])
            except AttributeError:
                pass
            if closed:
                self._lam[t.id] = f
            return f
        if op in ("forall", "exists"):
            import itertools
            vs = a[0]
            top = D
            for x in self.c.values():
                if type(x) is int and top < x + 2:
                    top = x + 2
            if top ** len(vs) > 60000:
                raise pv.Undef("range of a quantifier")
            for ix in itertools.product(range(-1, top + 1), repeat=len(vs)):
                if time.time() > EVAL_END[0]:
                    raise pv.Undef("time")
                try:
                    r = self.ev(a[1], {**env, **{v.args[0]: x for v, x in zip(vs, ix)}}, {})
                except pv.Undef:
                    if op == "forall":
                        continue
                    raise
                if r and op == "exists":
                    return True
                if not r and op == "forall":
                    return False
            return op == "forall"
        if op == "eq":
            v = self.ev(a[0], env, memo)
            return abs(v) < 1e-9 if isinstance(v, float) else v == 0
        if op == "le":
            v = self.ev(a[0], env, memo)
            return v <= (1e-9 if isinstance(v, float) else 0)
        if op == "app":
            f = a[0]
            if f in self.hooks:
                return self.hooks[f](self, [self.ev(x, env, memo) for x in a[1:]])
            if f == "solve":
                xs = [self.ev(x, env, memo) for x in a[1:]]
                return gauss(xs[0], xs[1], xs[2], xs[3])
            if f in ("argmax0", "argmin0") and len(a) == 3:
                fn, n = self.ev(a[1], env, memo), int(self.ev(a[2], env, memo))
                if n <= 0:
                    raise pv.Undef(f)
                return (max if f == "argmax0" else min)(range(n), key=lambda i: fn(i))
            if f in ("T_indptr", "T_indices", "T_src", "C_indptr", "C_indices", "C_src", "T_dst", "C_dst") and len(a) == 7:
                xs = [self.ev(x, env, memo) for x in a[1:]]
                return resort(f, *xs)
            if f in ("sortperm", "sortperm_inv", "mpos", "mrank", "ssorted", "zcount") and len(a) == 4:
                fn, n, k = self.ev(a[1], env, memo), int(self.ev(a[2], env, memo)), self.ev(a[3], env, memo)
                if n > 300:
                    raise pv.Undef(f)
                if f == "zcount":
                    return sum(1 for i in range(min(n, int(k))) if fn(i))
                if f == "ssorted":
                    return sum(1 for i in range(n) if fn(i) < k)
                got = getattr(fn, "_order", {}).get((n, f[0])) if hasattr(fn, "arity") else None
                if got is not None:
                    pass
                elif f in ("mpos", "mrank"):
                    got = [i for i in range(n) if fn(i)]
                else:
                    got = sorted(range(n), key=fn)
                if hasattr(fn, "arity"):
                    fn.__dict__.setdefault("_order", {})[(n, f[0])] = got
                if f in ("mpos", "sortperm"):
                    if not 0 <= k < len(got):
                        raise pv.Undef(f)
                    return got[int(k)]
                if k not in got:
                    raise pv.Undef(f)
                return got.index(k)
            if f == "mcount" and len(a) == 3:
                fn, n = self.ev(a[1], env, memo), int(self.ev(a[2], env, memo))
                if n > 300:
                    raise pv.Undef(f)
                return sum(1 for i in range(n) if fn(i))
            if f == "lastpos":
                fn, n, k = self.ev(a[1], env, memo), int(self.ev(a[2], env, memo)), self.ev(a[3], env, memo)
                for i in reversed(range(n)):
                    if fn(i) == k:
                        return i
                raise pv.Undef(f)
            if f == "rowof":
                fn, n, k = self.ev(a[1], env, memo), int(self.ev(a[2], env, memo)), self.ev(a[3], env, memo)
                for i in range(n):
                    if fn(i) <= k < fn(i + 1):
                        return i
                raise pv.Undef(f)
            if f == "solve_info":
                xs = [self.ev(x, env, memo) for x in a[1:]]
                return 0 if posdef(xs[0], xs[1]) else 1
            if f not in self.f and not f.startswith("let!") and f not in ("inv", "exp", "sqrt", "log", "fdiv", "mod", "toint"):
                if f.startswith(("st$", "undet_", "pre_", "racy", "rc!")):
                    raise pv.Undef(f)
                xs = [self.ev(x, env, memo) for x in a[1:]]
                k = (f, tuple(self.key(x) for x in xs))
                r = random.Random(repr((self.seed, k)))
                if f == "isnan":
                    return r.random() < .01
                if f.startswith("draw_"):
                    if "_random" in f:
                        return Fraction(r.randint(0, 99), 100)
                    if "_integers" in f:
                        if xs[2] >= xs[3]:
                            raise pv.Undef(f)
                        return r.randint(int(xs[2]), int(xs[3]) - 1)
                    if "_choice" in f:
                        r = random.Random(repr((self.seed, f, tuple(self.key(x) for x in xs[:4]))))
                        perm = list(range(int(xs[2])))
                        r.shuffle(perm)
                        if not 0 <= xs[4] < len(perm):
                            raise pv.Undef(f)
                        return perm[int(xs[4])]
                if t.sort == "B":
                    return r.random() < .5
                if t.sort == "I":
                    return r.randint(0, 4)
                return Fraction(r.randint(-4, 5), r.choice([1, 2, 3]))
        return pv.Eval._ev(self, t, env, memo)


def resort(f, p, q, rows, cols, nnz, k):
    """structure of the transpose of a CSR matrix, or of a COO matrix as CSR"""
    rows, cols, nnz = int(rows), int(cols), int(nnz)
    if nnz > 60 or rows > 60 or cols > 60:
        raise pv.Undef(f)
    if f[0] == "T":
        ent = [(q(x), r, x) for r in range(rows) for x in range(int(p(r)), int(p(r + 1)))]
        n = cols
    else:
        ent = [(p(x), q(x), x) for x in range(nnz)]
        n = rows
    ent.sort(key=lambda e: e[0])
    if f.endswith("_indptr"):
        if not 0 <= k <= n:
            raise pv.Undef(f)
        return sum(1 for e in ent if e[0] < k)
    if not 0 <= k < len(ent):
        raise pv.Undef(f)
    if f.endswith("_dst"):
        return [e[2] for e in ent].index(k)
    return ent[int(k)][1 if f.endswith("_indices") else 2]


def gauss(M, b, n, f):
    if not 0 <= f < n:
        raise pv.Undef("index")
    A = [[Fraction(M(i, j)) for j in range(n)] + [Fraction(b(i))] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            raise pv.Undef("singular")
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c and A[r][c] != 0:
                q = A[r][c] / A[c][c]
                A[r] = [x - q * y for x, y in zip(A[r], A[c])]
    return A[f][n] / A[f][f]


def posdef(M, n):
    A = [[Fraction(M(i, j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        if A[c][c] <= 0:
            return False
        for r in range(c + 1, n):
            q = A[r][c] / A[c][c]
            A[r] = [x - q * y for x, y in zip(A[r], A[c])]
    return True


WHY = None      # set to a list to learn why samples are rejected


def sample(c, ob, r, n):
    """constants and an evaluator under which the hypotheses hold, or None"""
    consts, fns = {}, {}
    try:
        for g in c.gens:
            g(r, consts, fns)
        ts = list(ob.hyps) + [ob.goal] + (list(ob.eq) if ob.eq else [])
        todo = set()
        for t in ts:
            todo |= {v for v in t.fv if v.args[0] not in consts}
        ev = REval(consts, fns, n, c.hooks)
        # definitions of auxiliary names
        for _ in range(4):
            for h in ob.hyps:
                if h.op == "eq":
                    for v in list(todo):
                        if v in h.fv and not (h.fv & todo) - {v}:
                            s = pv._solve(h.args[0], v)
                            if s is not None:
                                try:
                                    consts[v.args[0]] = ev(s)
                                    todo.discard(v)
                                except pv.Undef:
                                    pass
        for v in sorted(todo, key=lambda v: v.args[0]):
            if v.sort == "I":
                # a value that agrees with the hypotheses about this variable alone
                cands = [0, 1, 2, 3, 4]
                for x in consts.values():
                    if type(x) is int and x > 5:
                        cands += [x - 1, x // 2]
                r.shuffle(cands)
                known = set(consts) | {v.args[0]}
                hs = [h for h in ob.hyps if v in h.fv and h.op in ("le", "lt", "eq", "not", "and", "or") and all(x.args[0] in known for x in h.fv)]
                for x in cands:
                    consts[v.args[0]] = x
                    e2 = REval(consts, fns, n, c.hooks)
                    try:
                        if all(e2(h) for h in hs):
                            break
                    except (pv.Undef, ZeroDivisionError):
                        pass
                continue
            consts[v.args[0]] = (r.random() < .5) if v.sort == "B" else near(r, -4, 5, (1, 2))
        ev = REval(consts, fns, n, c.hooks)
        for h in sorted(ob.hyps, key=lambda h: (len(h.fs) > 0, h.has, len(h.fs))):
            if h.id in c.given_ids:
                continue
            try:
                ok = ev(h)
            except (pv.Undef, ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
                if WHY is not None:
                    WHY.append((show(h)[:300], repr(e)))
                return None
            if not ok:
                if WHY is not None:
                    WHY.append((show(h)[:300], "false"))
                return None
        return consts, ev
    except (pv.Undef, ZeroDivisionError, OverflowError, RecursionError, TypeError, ValueError) as e:
        if WHY is not None:
            WHY.append(("generation", repr(e)))
        return None


def refute(c, ob, budget=4.0, seed=0):
    """a concrete sample on which the hypotheses hold and the goal does not, or None"""
    t0 = time.time()
    n = 0
    if any(I.INEXACT in h.fv for h in ob.hyps):
        return None
    pool = constants(ob)
    while time.time() - t0 < budget:
        n += 1
        POOL[:] = pool if n % 2 else []
        EVAL_END[0] = t0 + 2 * budget + 2
        r = random.Random((seed, n).__repr__())
        got = sample(c, ob, r, n)
        if got is None:
            continue
        consts, ev = got
        try:
            if ob.eq:
                a, b = ev(ob.eq[0]), ev(ob.eq[1])
                if isinstance(a, bool) or isinstance(b, bool):
                    bad = bool(a) != bool(b)
                else:
                    bad = abs(float(a) - float(b)) > 1e-7 * max(1.0, abs(float(a)))
                if bad:
                    return {"inputs": describe(consts), "code": str(a), "contract": str(b)}
            elif not ev(ob.goal):
                return {"inputs": describe(consts)}
        except (pv.Undef, ZeroDivisionError, OverflowError, RecursionError, TypeError, ValueError):
            continue
    return None


def describe(consts):
    return {k: str(v) for k, v in list(consts.items())[:40]}


def discharge(c, deadline):
    """statuses of the obligations collected in the context"""
    out = []
    groups = {}
    for ob in c.ip.obl:
        groups.setdefault(ob.name, []).append(ob)
    for name, obs in groups.items():
        t0 = time.time()
        status, backend, detail, model = "proved", "", "", None
        bks = set()
        for ob in obs:
            if time.time() > deadline:
                status, detail = "unknown", "time budget exhausted"
                break
            pv.DEADLINE[0] = min(deadline, time.time() + 60)
            try:
                if ob.eq:
                    r = pv.prove_eq(ob.hyps, ob.eq[0], ob.eq[1])
                else:
                    r = pv.prove(ob.hyps, ob.goal) if ob.goal is not FALSE else dead(ob.hyps)
            except tm.Budget:
                r = pv.Result("unknown", "", "term size limit")
            if r:
                bks.add(r.backend or "normal form")
                continue
            m = refute(c, ob, min(6.0, max(0.5, deadline - time.time()))) if ob.kind != "race" else None
            if m is not None:
                status, model = "refuted", m
                detail = (show(ob.eq[0])[:1200] + "   =/=   " + show(ob.eq[1])[:1200]) if ob.eq else show(ob.goal)[:1500]
                break
            status, detail = "unknown", (r.detail or "")[:1500]
        out.append({"name": name, "function": c.name, "status": status, "backend": "+".join(sorted(bks)), "time": round(time.time() - t0, 3),
                    "detail": detail, "model": model, "paths": len(obs)})
    return out


def dead(hyps):
    return pv.Result("proved", "z3") if pv.feasible(hyps) is False else pv.Result("unknown", "z3", "reachable")
