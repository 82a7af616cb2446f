"""Symbolic interpreter over the IR: executes the real function bodies on symbolic inputs.

Loops with a symbolic number of iterations are summarised from one generic iteration: every location the body may
change is havocked, the body is executed once, and the resulting equations location' = f(locations) are solved as
sums (additive accumulators), last values, slice-wise updates (row i written in iteration i only) or, failing that,
as simultaneous recurrences.  Nothing is unrolled to a bound."""
from fractions import Fraction

from terms import *  # noqa
import terms as tm
import prover as pv
from prover import decide, feasible, simp
from ir import N, walk


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, typ, msg=""):
        Exception.__init__(self, typ)
        self.typ, self.msg = typ, msg


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class NoMerge(Exception):
    pass


class Cell:
    """content of a buffer: shape, index variables and the term of the element; immutable"""
    __slots__ = ("shape", "vars", "body", "dt", "name", "meta")

    def __init__(self, shape, vars, body, dt, name="", meta=None):
        self.shape, self.vars, self.body, self.dt, self.name, self.meta = tuple(shape), tuple(vars), body, dt, name, meta

    def at(self, idx):
        return subst(self.body, dict(zip(self.vars, idx)))

    def with_body(self, vars, body):
        return Cell(self.shape, vars, body, self.dt, self.name, self.meta)


class Arr:
    """a view of a cell; maps[d] = (constant, ((view axis, factor), ...)) gives index d of the cell"""
    __slots__ = ("cell", "shape", "maps", "cls")

    def __init__(self, cell, shape, maps, cls="ndarray"):
        self.cell, self.shape, self.maps, self.cls = cell, tuple(shape), tuple(maps), cls

    def index(self, idx):
        out = []
        for c, ds in self.maps:
            t = c
            for ax, k in ds:
                t = add(t, mul(k, idx[ax]))
            out.append(t)
        return out

    def same(self, o):
        return isinstance(o, Arr) and self.cell == o.cell and self.shape == o.shape and self.maps == o.maps

    @property
    def ndim(self):
        return len(self.shape)


class Ptr:
    __slots__ = ("cell", "pos", "dirty")

    def __init__(self, cell, pos):
        self.cell, self.pos = cell, tuple(pos)

    def same(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.pos == o.pos


class Ref:
    """address of a local scalar"""
    __slots__ = ("fid", "name")

    def __init__(self, fid, name):
        self.fid, self.name = fid, name


class H:
    """heap reference: list, dict, object"""
    __slots__ = ("id", "kind", "cls")

    def __init__(self, id, kind, cls=None):
        self.id, self.kind, self.cls = id, kind, cls

    def __eq__(self, o):
        return isinstance(o, H) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "H(%s,%s,%s)" % (self.id, self.kind, self.cls and getattr(self.cls, "name", self.cls))


class FuncV:
    def __init__(self, node, mod, self_=None, cls=None, closure=None):
        self.node, self.mod, self.self_, self.cls, self.closure = node, mod, self_, cls, closure

    @property
    def name(self):
        return self.node.name


class Builtin:
    def __init__(self, name, fn, self_=None):
        self.name, self.fn, self.self_ = name, fn, self_

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name and o.self_ == self.self_

    def __hash__(self):
        return hash(self.name)


class ModV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ClsV:
    def __init__(self, name, node=None, mod=None, bases=()):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.name == self.name and o.mod == self.mod

    def __hash__(self):
        return hash(self.name)


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Poison:
    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Poison)

    def __hash__(self):
        return 1


class DType:
    """a numpy dtype known by name or symbolically"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype(%s)" % (self.name,)


UNBOUND = object()


class State:
    __slots__ = ("fr", "heap", "pc", "facts", "fid")

    def __init__(self):
        self.fr, self.heap, self.pc, self.facts, self.fid = {}, {}, (), (), 0

    def copy(self):
        s = State()
        s.fr = {k: dict(v) for k, v in self.fr.items()}
        s.heap = dict(self.heap)
        s.pc, s.facts, s.fid = self.pc, self.facts, self.fid
        return s


class Out:
    __slots__ = ("st", "sig", "val", "cond")

    def __init__(self, st, sig, val, cond):
        self.st, self.sig, self.val, self.cond = st, sig, val, cond


class Obligation:
    def __init__(self, name, hyps, goal, kind, eq=None):
        self.name, self.hyps, self.goal, self.kind, self.eq = name, hyps, goal, kind, eq


def is_scalar(v):
    return isinstance(v, (T, int, Fraction, float))


def lift(v):
    if isinstance(v, float):
        return num(Fraction(repr(v)))
    return T_(v)


def split_add(e, pre):
    """d with e == pre + d and d free of pre, or None"""
    if e is pre:
        return ZERO
    if e.op == "ite":
        c = e.args[0]
        if pre in c.fv or pre in tm_sub(c):
            return None
        a, b = split_add(e.args[1], pre), split_add(e.args[2], pre)
        if a is None or b is None:
            return None
        return ite(c, a, b)
    if e.op == "poly":
        d = sub(e, pre)
        if not occurs(pre, d):
            return d
        # c*ite(..., pre + x, pre) ...
        p = to_poly(e)
        tot, rest = [], {}
        for m, c in p.items():
            if any(occurs(pre, a) for a, _ in m):
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    tot.append(m[0][0])
                else:
                    return None
            else:
                rest[m] = c
        if len(tot) == 1:
            r = split_add(tot[0], pre)
            return None if r is None else add(r, from_poly(rest))
    return None


def tm_sub(t):
    return set(subterms(t))


def occurs(x, t):
    if x.op == "var":
        return x in t.fv
    if not (x.fs <= t.fs):
        return False
    return x in tm_sub(t)


class Interp:
    MAXPATHS = 400

    def __init__(self, world):
        self.w = world                   # modules, contracts
        self.st = State()
        self.ctr = 0
        self.dec = []
        self.decsize = []
        self.prefix = []
        self.dry = 0
        self.obl = []
        self.oblkeys = set()
        self.unchecked = []              # stack: bounds are not checked at run time here
        self.depth = 0
        self.types = {}
        self.yield_hook = None
        self.log = []
        self.par_writes = []
        self.loop_hooks = {}
        self.calls = []                  # names of the functions executed inline
        self.loopvars = []               # variables of the generic iterations being executed
        self.par_start = None            # allocation counter at the start of the parallel region
        self.cur_call = None
        self.noarr = set()
        self.naming = False              # name intermediate vectors instead of inlining their definitions
        self.arrvars = {}
        self.alts, self.loop_lo = {}, []
        self.lenient = False             # variables that differ between paths become unreadable instead of splitting

    # ------------------------------------------------------------ names, facts
    def nm(self, base):
        self.ctr += 1
        return "%s~%d" % (base, self.ctr)

    def new(self, base, sort="I"):
        return var(self.nm(base), sort)

    def hyps(self):
        return self.st.facts + self.st.pc

    def assume(self, c):
        c = T_(c)
        if c is not TRUE and c not in self.st.facts:
            self.st.facts = self.st.facts + (c,)

    def path(self, c):
        c = T_(c)
        if c is not TRUE:
            self.st.pc = self.st.pc + (c,)

    def oblige(self, name, goal, kind="contract", eq=None):
        if self.dry:
            return
        goal = T_(goal)
        if goal is TRUE:
            return
        k = (name, goal.id, frozenset(h.id for h in self.hyps()))
        if k in self.oblkeys:
            return
        self.oblkeys.add(k)
        self.obl.append(Obligation(name, self.hyps(), goal, kind, eq))

    def truth(self, c):
        """True / False / None under the current hypotheses"""
        return decide(self.hyps(), c)

    # ------------------------------------------------------------ forks
    def choose(self, n):
        i = len(self.dec)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.dec.append(k)
        self.decsize.append(n)
        return k

    def explore(self, thunk):
        base = self.st.copy()
        saved = (self.dec, self.decsize, self.prefix, self.ctr)
        ctr0 = self.ctr
        todo, outs = [[]], []
        maxctr = ctr0
        try:
            while todo:
                self.prefix = todo.pop()
                self.dec, self.decsize = [], []
                self.st = base.copy()
                self.ctr = ctr0
                sig, val = None, None
                try:
                    val = thunk()
                except Ret as e:
                    sig, val = "return", e.val
                except Brk:
                    sig = "break"
                except Cont:
                    sig = "continue"
                except PyRaise as e:
                    sig, val = "raise", e
                maxctr = max(maxctr, self.ctr)
                for i in range(len(self.prefix), len(self.dec)):
                    for alt in range(self.dec[i] + 1, self.decsize[i]):
                        todo.append(self.dec[:i] + [alt])
                cond = and_(*self.st.pc[len(base.pc):])
                if cond is not FALSE:
                    outs.append(Out(self.st, sig, val, cond))
                if len(outs) > self.MAXPATHS:
                    raise Unsupported("too many paths")
        finally:
            self.dec, self.decsize, self.prefix, _ = saved
            self.ctr = max(maxctr, ctr0)
            self.st = base
        return outs

    # ------------------------------------------------------------ merging
    def mval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison("differs between branches")
        if isinstance(a, (bool, int, Fraction, float, T)) and isinstance(b, (bool, int, Fraction, float, T)):
            ta, tb = lift(a), lift(b)
            if ta is tb:
                return a
            if ta.sort == tb.sort or {ta.sort, tb.sort} <= {"I", "R"}:
                return ite(c, ta, tb)
            raise NoMerge()
        if type(a) is type(b):
            if isinstance(a, (Arr, Ptr)):
                if a.same(b):
                    return a
                raise NoMerge()
            if isinstance(a, tuple):
                if len(a) == len(b):
                    return tuple(self.mval(c, x, y) for x, y in zip(a, b))
                raise NoMerge()
            if isinstance(a, Ref):
                if (a.fid, a.name) == (b.fid, b.name):
                    return a
                raise NoMerge()
            if isinstance(a, DType):
                return a if a == b else DType("?")
            try:
                if a == b:
                    return a
            except TypeError:
                pass
        raise NoMerge()

    def mrec(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Cell):
            if a.shape != b.shape:
                raise NoMerge()
            vs = a.vars
            return Cell(a.shape, vs, ite(c, a.body, b.at(vs)), a.dt if a.dt == b.dt else "R", a.name, a.meta)
        if isinstance(a, list):
            if len(a) != len(b):
                raise NoMerge()
            return [self.mval(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, dict):
            if set(a) != set(b):
                raise NoMerge()
            return {k: self.mval(c, a[k], b[k]) for k in a}
        raise NoMerge()

    def merge2(self, c, a, b, base):
        s = State()
        s.fid = base.fid
        s.pc = base.pc
        s.facts = base.facts
        for f in a.facts:
            if f not in base.facts:
                s.facts += (implies(c, f) if f not in b.facts else f,)
        for f in b.facts:
            if f not in base.facts and f not in a.facts:
                s.facts += (implies(not_(c), f),)
        for fid in base.fr:
            fa, fb = a.fr[fid], b.fr[fid]
            d = {}
            for k in set(fa) | set(fb):
                if k in fa and k in fb:
                    try:
                        d[k] = self.mval(c, fa[k], fb[k])
                    except NoMerge:
                        if not self.lenient:
                            raise
                        d[k] = Poison("%s differs between paths" % k)
                else:
                    d[k] = Poison("bound in one branch only")
            s.fr[fid] = d
        for i in set(a.heap) | set(b.heap):
            if i in a.heap and i in b.heap:
                s.heap[i] = self.mrec(c, a.heap[i], b.heap[i])
            else:
                s.heap[i] = a.heap.get(i, b.heap.get(i))
        return s

    def merge(self, outs, base):
        """one state for several normal outcomes, or NoMerge"""
        cur = outs[-1].st
        if len(outs) == 1:
            s = cur.copy()
            return s
        for o in reversed(outs[:-1]):
            cur = self.merge2(o.cond, o.st, cur, base)
        return cur

    def fork(self, outs):
        """continue with the outcomes of a statement: merged where possible, otherwise one path each"""
        base = self.st
        groups = []
        for o in outs:
            placed = False
            if o.sig in (None, "continue", "break"):
                for g in groups:
                    if g[0] == o.sig:
                        try:
                            rel = State()
                            m = self.merge2(g[2], g[1], o.st, base)
                            # merge2 needs exclusive conditions: g[2] excludes o.cond
                            g[1], g[2], g[3] = m, or_(g[2], o.cond), None
                            placed = True
                            break
                        except NoMerge:
                            continue
            if not placed:
                groups.append([o.sig, o.st, o.cond, o.val])
        if not groups:
            raise Dead()
        k = self.choose(len(groups)) if len(groups) > 1 else 0
        sig, st, cond, val = groups[k]
        ns = st.copy()
        ns.pc = base.pc + ((cond,) if (cond is not TRUE and len(groups) > 1) else ())
        ns.fid = base.fid
        self.st = ns
        if sig == "return":
            raise Ret(val)
        if sig == "break":
            raise Brk()
        if sig == "continue":
            raise Cont()
        if sig == "raise":
            raise val
        return None

    # ------------------------------------------------------------ heap
    def alloc(self, rec, kind="cell", cls=None):
        self.ctr += 1
        i = self.ctr
        self.st.heap[i] = rec
        return H(i, kind, cls) if kind != "cell" else i

    def array(self, shape, fn, dt, name="tmp", cls="ndarray", meta=None):
        """fresh array with element fn(*index)"""
        shape = tuple(lift(s) for s in shape)
        vs = tuple(tm.fresh("x") for _ in shape)
        body = b_or_num(fn(*vs), dt)
        c = self.alloc(Cell(shape, vs, body, dt, name, meta))
        return Arr(c, shape, [(ZERO, ((d, ONE),)) for d in range(len(shape))], cls)

    def input_array(self, name, shape, dt="R", cls="ndarray"):
        shape = tuple(lift(s) for s in shape)
        return self.array(shape, lambda *ix: app(name, *ix, sort=dt), dt, name, cls)

    def cell(self, a):
        return self.st.heap[a.cell]

    def get(self, a, idx, check=True):
        ci = a.index(idx)
        c = self.st.heap[a.cell]
        if check:
            self.bounds(c, ci, a, idx)
        return c.at(ci)

    def elem(self, a):
        """python function giving the element term of the array value now (a snapshot)"""
        c = self.st.heap[a.cell]
        return lambda *idx: c.at(a.index(idx))

    def bounds(self, c, ci, a=None, idx=None):
        for d, (i, n) in enumerate(zip(ci, c.shape)):
            g = and_(le(ZERO, i), lt(i, n))
            if g is TRUE:
                continue
            self.oblige("%s index %d of %s stays inside" % (self.where(), d, c.name or "a buffer"), g, "bounds")
        if a is not None and idx is not None:
            for d, (i, n) in enumerate(zip(idx, a.shape)):
                g = and_(le(ZERO, i), lt(i, n))
                if g is not TRUE and (i, n) not in list(zip(ci, c.shape)):
                    self.oblige("%s view index %d of %s stays inside" % (self.where(), d, c.name or "a buffer"), g, "bounds")

    def where(self):
        return self.calls[-1] if self.calls else ""

    def put(self, a, idx, v, check=True):
        ci = a.index(idx)
        c = self.st.heap[a.cell]
        if check:
            self.bounds(c, ci, a, idx)
        self.store(a.cell, ci, v)

    def store(self, cid, ci, v):
        c = self.st.heap[cid]
        v = b_or_num(v, c.dt)
        if c.dt == "I" and v.sort == "R":
            raise Unsupported("real value stored into an integer array")
        cond = and_(*[eq(x, i) for x, i in zip(c.vars, ci)])
        self.st.heap[cid] = c.with_body(c.vars, ite(cond, v, c.body))

    def fill(self, a, fn):
        """a[...] = fn(index) for the whole view"""
        c = self.st.heap[a.cell]
        # invert the view: cell index -> view index
        vidx = [None] * a.ndim
        conds = []
        for d, (k, ds) in enumerate(a.maps):
            x = c.vars[d]
            if not ds:
                conds.append(eq(x, k))
            elif len(ds) == 1 and ds[0][1] in (ONE, num(-1)):
                ax, s = ds[0]
                e = mul(s, sub(x, k))
                if vidx[ax] is not None:
                    raise Unsupported("store through a diagonal view")
                vidx[ax] = e
                n = a.shape[ax]
                if not (k is ZERO and n is c.shape[d] and s is ONE):
                    conds += [le(ZERO, e), lt(e, n)]
            else:
                raise Unsupported("store through a strided view")
        for ax, e in enumerate(vidx):
            if e is None:
                vidx[ax] = ZERO
        v = b_or_num(fn(*vidx), c.dt)
        if c.dt == "I" and v.sort == "R":
            raise Unsupported("real value stored into an integer array")
        self.st.heap[a.cell] = c.with_body(c.vars, ite(and_(*conds), v, c.body))

    # ------------------------------------------------------------ environments
    @property
    def env(self):
        return self.st.fr[self.st.fid]

    def push(self, env=None):
        self.ctr += 1
        f = self.ctr
        self.st.fr[f] = dict(env or {})
        old = self.st.fid
        self.st.fid = f
        return old, f

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        f = getattr(self, "s_" + s.k, None)
        if f is None:
            raise Unsupported("statement %s at line %d" % (s.k if s.k != "Unsupported" else s.what, s.line))
        return f(s)

    def s_Pass(self, s): pass
    def s_Global(self, s): pass
    def s_Import(self, s):
        for name, asname in s.names:
            if asname:
                self.env[asname] = self.w.module(name)
            else:
                self.env[name.split(".")[0]] = self.w.module(name.split(".")[0])

    def s_From(self, s):
        for name, asname in s.names:
            self.env[asname or name] = self.w.from_import(self, self.cur_mod(), s, name)

    def cur_mod(self):
        return self.env.get("__module__")

    def s_Func(self, s):
        self.env[s.name] = FuncV(s, self.cur_mod(), closure=self.st.fid)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else None)

    def s_Raise(self, s):
        e = s.exc
        if e is None:
            raise PyRaise("reraise")
        typ = e.func if e.k == "Call" else e
        name = typ.id if typ.k == "Name" else getattr(typ, "attr", "?")
        raise PyRaise(name)

    def s_Delete(self, s):
        for t in s.targets:
            if t.k == "Name":
                self.env.pop(t.id, None)
            elif t.k == "Index":
                o, k = self.ev(t.value), self.ev(t.index)
                if isinstance(o, H) and o.kind == "dict" and isinstance(k, str):
                    d = dict(self.st.heap[o.id])
                    if k not in d:
                        raise PyRaise("KeyError")
                    del d[k]
                    self.st.heap[o.id] = d
                else:
                    raise Unsupported("del of an item")
            else:
                raise Unsupported("del")

    def s_Assert(self, s):
        c = self.cond(s.test)
        t = self.truth(c) if isinstance(c, T) else c
        if t is True:
            return
        if t is False:
            raise PyRaise("AssertionError")
        if self.choose(2) == 0:
            self.path(c)
        else:
            self.path(not_(c))
            raise PyRaise("AssertionError")

    def s_Decl(self, s):
        self.types[(self.st.fid, s.name)] = s.type
        if s.value is not None:
            self.setvar(s.name, self.w.coerce(self, self.ev(s.value), s.type))
        else:
            v = self.w.default(self, s.type)
            if v is not None:
                self.setvar(s.name, v)

    def setvar(self, name, v):
        t = self.types.get((self.st.fid, name))
        if t:
            v = self.w.coerce(self, v, t)
        self.env[name] = v

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def assign(self, t, v):
        if t.k == "Name":
            self.setvar(t.id, v)
        elif t.k in ("Tuple", "List"):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif t.k == "Attr":
            self.w.setattr(self, self.ev(t.value), t.attr, v)
        elif t.k == "Index":
            self.w.setitem(self, self.ev(t.value), self.index(t.index), v)
        else:
            raise Unsupported("assignment to " + t.k)

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise("ValueError")
            return list(v)
        if isinstance(v, H) and v.kind == "list":
            return self.unpack(tuple(self.st.heap[v.id]), n)
        if isinstance(v, Arr) and v.ndim >= 1 and isnum(v.shape[0], n):
            return [self.w.getitem(self, v, num(i)) for i in range(n)]
        r = self.w.unpack(self, v, n)
        if r is not None:
            return r
        raise Unsupported("unpacking")

    def s_AugAssign(self, s):
        t = s.target
        if t.k == "Name":
            cur = self.ev(t)
            v = self.ev(s.value)
            r = self.w.inplace(self, cur, s.op, v)
            self.setvar(t.id, r)
        elif t.k == "Attr":
            o = self.ev(t.value)
            cur = self.w.getattr(self, o, t.attr)
            r = self.w.inplace(self, cur, s.op, self.ev(s.value))
            self.w.setattr(self, o, t.attr, r)
        elif t.k == "Index":
            o, ix = self.ev(t.value), self.index(t.index)
            cur = self.w.getitem(self, o, ix)
            r = self.w.inplace(self, cur, s.op, self.ev(s.value)) if is_scalar(cur) or isinstance(cur, Arr) else self.w.binop(self, s.op, cur, self.ev(s.value))
            self.w.setitem(self, o, ix, r)
        else:
            raise Unsupported("augmented assignment")

    def cond(self, e):
        """truth value of an expression: bool or boolean term"""
        if e.k == "BoolOp":
            return self.boolop(e)
        if e.k == "UnOp" and e.op == "not":
            c = self.cond(e.operand)
            return (not c) if isinstance(c, bool) else not_(c)
        return self.w.truthy(self, self.ev(e))

    def boolop(self, e):
        acc = []
        for x in e.values:
            # evaluate under the assumption that the earlier operands did not decide
            save = self.st.pc
            for a in acc:
                self.path(a if e.op == "and" else not_(a))
            try:
                c = self.cond(x)
            finally:
                self.st.pc = save
            if isinstance(c, bool) or c in (TRUE, FALSE):
                b = c if isinstance(c, bool) else c is TRUE
                if b != (e.op == "and"):
                    acc.append(T_(b))
                    break
                continue
            d = None
            acc.append(c)
        if not acc:
            return e.op == "and"
        r = and_(*acc) if e.op == "and" else or_(*acc)
        return r is TRUE if r in (TRUE, FALSE) else r

    def s_If(self, s):
        c = self.cond(s.test)
        if isinstance(c, T):
            t = self.truth(c)
            if t is not None:
                c = t
        if c is True or c is TRUE:
            return self.block(s.body)
        if c is False or c is FALSE:
            return self.block(s.orelse)

        def branch(cc, body):
            self.path(cc)
            self.block(body)
        base = self.st
        outs = []
        for cc, body in ((c, s.body), (not_(c), s.orelse)):
            self.st = base.copy()
            outs += self.explore(lambda: branch(cc, body))
        self.st = base
        self.fork(outs)

    def s_Try(self, s):
        def main():
            if s.handlers:
                try:
                    self.block(s.body)
                except PyRaise as e:
                    for h in s.handlers:
                        names = self.handler_names(h.type)
                        if names is None or e.typ in names or "Exception" in names:
                            return self.block(h.body)
                    raise
                self.block(s.orelse)
            else:
                self.block(s.body)
        if not s.final:
            return main()
        try:
            main()
        except (Ret, Brk, Cont, PyRaise):
            self.block(s.final)
            raise
        self.block(s.final)

    def handler_names(self, t):
        if t is None:
            return None
        if t.k == "Tuple":
            return {x.id if x.k == "Name" else x.attr for x in t.elts}
        return {t.id if t.k == "Name" else t.attr}

    def s_With(self, s):
        par, old, locks = False, self.par_start, 0
        for e, tgt in s.items:
            par = par or (e.k == "Call" and e.func.k == "Name" and e.func.id == "parallel")
            v = self.w.enter(self, e)
            if getattr(v, "what", None) == "lock":
                self.lock_site = id(s)
                self.acquire()
                locks += 1
            if tgt is not None:
                self.assign(tgt, v)
        if par:
            self.par_start = self.ctr
        try:
            self.block(s.body)
        finally:
            self.par_start = old
            for _ in range(locks):
                self.release()

    def acquire(self):
        """held: nesting depth of locks; region: where the outermost of them was taken"""
        self.held = getattr(self, "held", 0) + 1
        if self.held == 1:
            self.region = self.lock_site

    lock_site = None

    def release(self):
        self.held = max(0, getattr(self, "held", 0) - 1)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        if s.orelse:
            raise Unsupported("for-else")
        self.w.iterate(self, s)

    def s_While(self, s):
        self.while_loop(s)

    def while_loop(self, s):
        """while v < bound: body with v += constant in every path becomes a counted loop"""
        c0 = self.cond(s.test)
        n = 0
        while isinstance(c0, bool) or c0 is TRUE or c0 is FALSE:
            c0 = c0 if isinstance(c0, bool) else c0 is TRUE
            if not c0:
                return
            try:
                self.block(s.body)
            except Cont:
                pass
            except Brk:
                return
            n += 1
            if n > 64:
                raise Unsupported("long concrete while loop")
            c0 = self.cond(s.test)
        # find the progress variable
        names = [x.id for x in walk(s.test) if isinstance(x, N) and x.k == "Name"]
        name = by = None
        for st in walk(s.body):
            if not isinstance(st, N):
                continue
            if st.k == "AugAssign" and st.target.k == "Name" and st.target.id in names and st.op == "+":
                name, by = st.target.id, st.value
            elif st.k == "Assign" and len(st.targets) == 1 and st.targets[0].k == "Name" and st.targets[0].id in names and st.value.k == "BinOp" and st.value.op == "+":
                v = st.targets[0].id
                for x, y in ((st.value.left, st.value.right), (st.value.right, st.value.left)):
                    if x.k == "Name" and x.id == v:
                        name, by = v, y
        if name is None:
            raise Unsupported("while loop without a counted variable")
        v0 = lift(self.env[name])
        inc = lift(self.ev(by))
        if inc.op != "num" or inc.args[0] <= 0:
            raise Unsupported("while loop step")
        # iterations: smallest k with not (v0 + k*inc < bound); requires the test to be v < bound with loop-invariant bound
        k = self.new("it")
        save = self.env[name]
        self.env[name] = add(v0, mul(inc, k))
        ck = self.cond(s.test)
        self.env[name] = save
        bound = None
        if isinstance(ck, T) and ck.op == "le":
            p = to_poly(ck.args[0])
            a = p.get(((k, 1),))
            if a is not None and a > 0 and not any(k in x.fv for m in p for x, _ in m if m != ((k, 1),)):
                rest = from_poly({m: c for m, c in p.items() if m != ((k, 1),)})
                # a*k + rest <= 0  <=>  k <= floor(-rest/a)
                q = neg(rest)
                bound = add(app("fdiv", q, num(a), sort="I"), ONE) if a != 1 else add(q, ONE)
        if bound is None:
            raise Unsupported("while loop test")
        total = max_(bound, ZERO) if self.truth(le(ZERO, bound)) is not True else bound
        if total.op == "ite":
            t = self.new("n_it")
            self.assume(eq(t, total))
            total = t
        if inc is ONE:      # the loop variable itself counts
            self.loop(k, v0, add(v0, total), lambda: self.block(s.body), parallel=False, fixed={("var", self.st.fid, name): lambda kk: kk})
            return
        self.loop(k, ZERO, total, lambda: self.block(s.body), parallel=False,
                  fixed={("var", self.st.fid, name): lambda kk: add(v0, mul(inc, kk))})

    def locations(self, a, b):
        """locations that differ between two states (b is a successor of a)"""
        out = set()
        for fid in a.fr:
            fa, fb = a.fr[fid], b.fr.get(fid, {})
            for k in set(fa) | set(fb):
                x, y = fa.get(k, UNBOUND), fb.get(k, UNBOUND)
                if x is y:
                    continue
                if x is not UNBOUND and y is not UNBOUND and self.same(x, y):
                    continue
                out.add(("var", fid, k))
        for i, r in a.heap.items():
            q = b.heap.get(i)
            if q is r:
                continue
            if isinstance(r, Cell):
                if q.body is not r.body or q.vars != r.vars:
                    if q.at(r.vars) is not r.body:
                        out.add(("cell", i))
            elif isinstance(r, dict):
                for k in set(r) | set(q):
                    if k not in r or k not in q or not self.same(r[k], q[k]):
                        out.add(("key", i, k))
            elif isinstance(r, list):
                if len(r) != len(q) or not all(self.same(x, y) for x, y in zip(r, q)):
                    out.add(("list", i))
            else:
                if q != r:
                    out.add(("obj", i))
        return out

    def same(self, x, y):
        if x is y:
            return True
        if is_scalar(x) and is_scalar(y):
            return lift(x) is lift(y)
        if type(x) is not type(y):
            return False
        if isinstance(x, (Arr, Ptr)):
            return x.same(y)
        if isinstance(x, tuple):
            return len(x) == len(y) and all(self.same(a, b) for a, b in zip(x, y))
        if isinstance(x, Ref):
            return (x.fid, x.name) == (y.fid, y.name)
        if isinstance(x, FuncV):
            return x.node is y.node
        try:
            return bool(x == y)
        except TypeError:
            return False

    def havoc(self, locs, sorts, i):
        """replace the locations by symbols for their value at the start of iteration i"""
        pre = {}
        for l in sorted(locs, key=str):
            if l[0] == "var":
                v = self.st.fr[l[1]].get(l[2], UNBOUND)
                if v is UNBOUND:
                    continue
                if is_scalar(v):
                    t = lift(v)
                    x = self.new("pre_" + str(l[2]), sorts.get(l, t.sort))
                    self.st.fr[l[1]][l[2]] = x
                    pre[l] = x
                elif isinstance(v, Arr) and v.cls == "ndarray" and ("cell", v.cell) not in locs and l not in self.noarr:
                    # an array variable bound anew in every iteration: its content is the state
                    f = self.nm("pre_" + str(l[2]))
                    dt = sorts.get(l, self.st.heap[v.cell].dt)
                    self.st.fr[l[1]][l[2]] = self.array(v.shape, lambda *ix: app(f, *ix, sort=dt), dt, str(l[2]))
                    self.arrvars.setdefault(l, tuple(tm.fresh("x") for _ in v.shape))
                    pre[l] = f
                elif l in self.alts and self.alts[l] is not UNBOUND:
                    # the value before the first iteration, afterwards the one every iteration leaves
                    if self.choose(2) == 0:
                        self.path(eq(i, self.loop_lo[-1]))
                    else:
                        self.path(lt(self.loop_lo[-1], i))
                        self.st.fr[l[1]][l[2]] = self.alts[l]
                else:
                    self.st.fr[l[1]][l[2]] = Poison("%s changes in a loop" % l[2])
            elif l[0] == "cell":
                c = self.st.heap[l[1]]
                f = self.nm("pre_" + (c.name or "buf"))
                vs = c.vars
                dt = sorts.get(l, c.dt)
                self.st.heap[l[1]] = Cell(c.shape, vs, app(f, *vs, sort=dt), dt, c.name, c.meta)
                pre[l] = f
            elif l[0] == "key":
                d = dict(self.st.heap[l[1]])
                v = d.get(l[2], UNBOUND)
                if v is not UNBOUND and is_scalar(v):
                    x = self.new("pre_" + str(l[2]), sorts.get(l, lift(v).sort))
                    d[l[2]] = x
                    pre[l] = x
                elif v is not UNBOUND:
                    d[l[2]] = Poison("%s changes in a loop" % (l[2],))
                self.st.heap[l[1]] = d
            elif l[0] == "list":
                raise Unsupported("list changed in a symbolic loop")
            else:
                r = self.st.heap[l[1]]
                if hasattr(r, "havoc"):
                    self.st.heap[l[1]] = r.havoc(self, i)
                else:
                    raise Unsupported("object changed in a symbolic loop")
        return pre

    def loop(self, i, lo, hi, body, parallel=False, fixed=None, node=None):
        """for i in lo..hi: body()   (i is a variable term; body reads it through the environment)"""
        fixed = fixed or {}
        if parallel and self.par_start is None:
            self.par_start = self.ctr
            try:
                return self.loop(i, lo, hi, body, parallel, fixed, node)
            finally:
                self.par_start = None
        base = self.st.copy()
        ctr0 = self.ctr
        if self.truth(lt(lo, hi)) is False:
            return
        def once(locs, sorts):
            pre = {}

            def thunk():
                self.path(le(lo, i))
                self.path(lt(i, hi))
                pre.clear()
                self.loop_lo.append(lo)
                try:
                    pre.update(self.havoc(locs, sorts, i))
                finally:
                    self.loop_lo.pop()
                for l, fn in fixed.items():
                    self.st.fr[l[1]][l[2]] = fn(i)
                    pre.pop(l, None)
                for _, f in (inv[0](self, i) if inv else ()):
                    self.assume(f)
                hav = self.st.copy()
                thunk.hav = hav
                self.loopvars.append(sub(i, lo))
                ps = self.par_start
                try:
                    body()
                except Cont:
                    pass
                finally:
                    self.loopvars.pop()
                    self.par_start = ps
            outs = self.explore(thunk)
            return outs, pre, thunk.hav

        locs, sorts = set(), {}
        inv = []
        self.dry += 1
        try:
            for rnd in range(12):
                outs, pre, hav = once(locs, sorts)
                new = set()
                for o in outs:
                    if o.sig in ("raise",):
                        continue
                    here = self.locations(hav, o.st)
                    new |= here
                    for l in here:
                        if l[0] == "var" and l not in locs:
                            v, w = hav.fr[l[1]].get(l[2], UNBOUND), o.st.fr[l[1]].get(l[2], UNBOUND)
                            if v is not UNBOUND and not is_scalar(v) and not isinstance(v, (Arr, Poison)) and finite(w, base):
                                if l not in self.alts:
                                    self.alts[l] = w
                                elif self.alts[l] is UNBOUND or not self.same(self.alts[l], w):
                                    self.alts[l] = UNBOUND
                for l in [l for l in self.alts if l in locs and self.alts[l] is not UNBOUND]:
                    for o in outs:
                        if o.sig not in ("raise",) and not self.same(o.st.fr[l[1]].get(l[2]), self.alts[l]):
                            self.alts[l] = UNBOUND
                            new.add(("resort", l))
                            break
                for o in outs:
                    for l in [l for l in new | locs if l[0] != "resort"] if o.sig not in ("raise",) else ():
                        srt = self.loc_sort(l, o.st)
                        if srt and srt != self.loc_sort(l, hav) and srt == "R" and l in locs and sorts.get(l) != "R":
                            sorts[l] = "R"
                            new.add(("resort", l))
                new -= {l for l in new if l[0] == "var" and l in fixed}
                resort = {l for l in new if l[0] == "resort"}
                new -= resort
                if new <= locs and not resort:
                    break
                locs |= new
                if any(l[0] in ("cell", "key", "list", "obj") and l[1] not in base.heap for l in locs):
                    raise Unsupported("in-place change of an array bound anew in a loop")
            else:
                raise Unsupported("loop effects do not stabilise")
        finally:
            self.dry -= 1
        f = self.w.invariant(self, node, base, locs, i, lo, hi) if self.w.invariant is not None else None
        if f is not None:
            inv.append(f)
            end = hi if self.truth(le(lo, hi)) is True else max_(lo, hi)
            # an invariant that fails says nothing about the inputs: never a counterexample
            self.assume(INEXACT)
            for n, g in f(self, lo):
                self.oblige("%s: %s, before the first iteration" % (self.where(), n), g)
            self.st = base.copy()
            outs, pre, hav = once(locs, sorts)
            for o in outs:
                self.st = o.st.copy()
                if o.sig is not None:
                    raise Unsupported("jump out of a loop with an invariant")
                self.assume(INEXACT)
                for n, g in f(self, add(i, ONE)):
                    self.oblige("%s: %s, kept by every iteration" % (self.where(), n), g)
            self.st = base.copy()
            if self.w.observer is not None:
                self.w.observer(self, i, lo, hi, pre, hav, outs, base, node)
            self.forget(locs, base, sorts)
            for n, g in f(self, end):
                self.assume(g)
            return
        outs, pre, hav = once(locs, sorts)
        if self.w.observer is not None and self.w.observer(self, i, lo, hi, pre, hav, outs, base, node):
            # the generic iteration is what the contract speaks about: what many of them leave behind is not needed
            self.forget(locs, base, sorts)
            return
        self.red = set()
        if parallel:
            for x in walk(node.body if node is not None else []):
                if isinstance(x, N) and x.k == "AugAssign" and x.target.k == "Name":
                    self.red.add(x.target.id)
        self.finish_loop(i, lo, hi, locs, pre, hav, outs, base, parallel, fixed, ctr0)

    def forget(self, locs, base, sorts={}):
        """the state after a loop of which nothing is known but what it may change"""
        st = self.st = base.copy()
        for l in locs:
            if l[0] == "var":
                v = st.fr[l[1]].get(l[2], UNBOUND)
                st.fr[l[1]][l[2]] = self.new("undet_" + str(l[2]), sorts.get(l) or lift(v).sort) if v is not UNBOUND and is_scalar(v) else Poison("%s after a loop" % l[2])
            elif l[0] == "cell":
                c = st.heap[l[1]]
                f = self.nm("undet_" + (c.name or "buf"))
                st.heap[l[1]] = c.with_body(c.vars, app(f, *c.vars, sort=c.dt))
            elif l[0] == "key":
                d = dict(st.heap[l[1]])
                d[l[2]] = self.new("undet_" + str(l[2]), lift(d[l[2]]).sort) if is_scalar(d.get(l[2])) else Poison("%s after a loop" % (l[2],))
                st.heap[l[1]] = d
            else:
                raise Unsupported("object changed in a loop")
        self.assume(INEXACT)

    def loc_sort(self, l, st):
        try:
            if l[0] == "var":
                v = st.fr[l[1]].get(l[2])
                if isinstance(v, Arr):
                    c = st.heap[v.cell]
                    return "R" if c.body.sort == "R" else c.dt
                return lift(v).sort if is_scalar(v) else None
            if l[0] == "cell":
                c = st.heap[l[1]]
                return "R" if c.body.sort == "R" else c.dt
            if l[0] == "key":
                v = st.heap[l[1]].get(l[2])
                return lift(v).sort if is_scalar(v) else None
        except (KeyError, TypeError):
            return None
        return None

    def finish_loop(self, i, lo, hi, locs, pre, hav, outs, base, parallel, fixed, ctr0):
        normal = [o for o in outs if o.sig is None]
        brk = [o for o in outs if o.sig == "break"]
        rets = [o for o in outs if o.sig == "return"]
        raises = [o for o in outs if o.sig == "raise"]
        if rets:
            raise Unsupported("return inside a symbolic loop")
        # the state at the start of the generic iteration, for merging
        self.st = hav
        len0, self.lenient = self.lenient, True
        try:
            if normal:
                after = self.merge(normal, hav)
            else:
                after = None
            bst = self.merge(brk, hav) if brk else None
        except NoMerge:
            raise Unsupported("paths of a loop body cannot be merged")
        finally:
            self.st = base.copy()
            self.lenient = len0
        bcond = or_(*[o.cond for o in brk]) if brk else FALSE
        bcond = strip_range(bcond, i, lo, hi)
        if parallel and brk:
            raise Unsupported("break in a parallel loop")
        eqs, init = {}, {}
        for l in locs:
            if l not in pre:
                continue
            p = pre[l]
            av = self.loc_val(l, after) if after is not None else None
            bv = self.loc_val(l, bst) if bst is not None else None
            vs = self.st.heap[l[1]].vars if l[0] == "cell" else self.arrvars[l] if isinstance(p, str) else ()
            init[l] = self.loc_val(l, base, vs)
            if after is not None:
                av = self.loc_val(l, after, vs)
            if bst is not None:
                bv = self.loc_val(l, bst, vs)
            if av is None and bv is None:
                eqs[l] = None
                continue
            e = av if bst is None else (bv if after is None else ite(bcond, bv, av))
            if vs:
                shp = self.st.heap[l[1]].shape if l[0] == "cell" else base.fr[l[1]][l[2]].shape
                inr = tuple(x for v, n in zip(vs, shp) for x in (le(ZERO, v), lt(v, n)))
                e = simp(base.facts + base.pc + (le(lo, i), lt(i, hi)) + inr, e)
            eqs[l] = e
        bad = {l for l, e in eqs.items() if e is None or init[l] is None}
        localise = self.locals_of(i, pre, outs, ctr0)
        eqs = {l: localise(e) for l, e in eqs.items() if l not in bad}
        bcond = localise(bcond)
        solver = LoopSolver(self, i, lo, hi, eqs, {l: v for l, v in init.items() if l not in bad},
                            pre, bcond if brk else None, parallel, base)
        solver.localise = localise
        solver.solve()
        if parallel:
            for l in sorted(locs, key=str):
                if l[0] == "cell" and l[1] <= self.par_start and solver.kinds.get(l) not in ("slice", "same"):
                    self.oblige("%s: iterations of the parallel loop write disjoint parts of %s" % (self.where(), base.heap[l[1]].name or "a buffer"),
                                FALSE, "race")
                elif l[0] in ("obj", "list", "key"):
                    self.oblige("%s: iterations of the parallel loop do not change shared objects" % self.where(), FALSE, "race")
        st = self.st
        for l in locs:
            if l in fixed:
                continue
            if l in solver.final:
                self.set_loc(l, solver.final[l])
            elif l[0] == "var" and l in self.alts and self.alts[l] is not UNBOUND and self.truth(lt(lo, hi)) is True:
                st.fr[l[1]][l[2]] = self.alts[l]
            elif l[0] == "var" and l not in pre and base.fr[l[1]].get(l[2], UNBOUND) is not UNBOUND and after is not None and not brk and self.last_value(l, after, solver, i, lo, hi) is not None:
                st.fr[l[1]][l[2]] = self.last_value(l, after, solver, i, lo, hi)
            elif l[0] == "var":
                st.fr[l[1]][l[2]] = Poison("%s after a loop" % l[2])
            elif l[0] == "cell":
                c = st.heap[l[1]]
                f = self.nm("undet_" + (c.name or "buf"))
                st.heap[l[1]] = c.with_body(c.vars, app(f, *c.vars, sort=c.dt))
            elif l[0] == "key":
                d = dict(st.heap[l[1]])
                d[l[2]] = Poison("%s after a loop" % (l[2],))
                st.heap[l[1]] = d
            elif l[0] == "obj":
                r = st.heap[l[1]]
                st.heap[l[1]] = r.after_loop(self, i, lo, hi)
        for l, fn in fixed.items():
            st.fr[l[1]][l[2]] = fn(hi)
        # rewrite the obligations of the generic iteration: values at its start are now known
        solver.rewrite_obligations()
        # facts that hold in every iteration
        inexact = False
        for o in normal:
            for f in o.st.facts:
                if f in base.facts or f in st.facts or f is INEXACT:
                    continue
                if not all(f in x.st.facts for x in normal):
                    f = implies(strip_range(o.cond, i, lo, hi), f)
                g = solver.at_iter(f)
                if g is None:
                    inexact = True
                elif i not in g.fv:
                    self.assume(implies(lt(lo, hi), g))
                else:
                    self.assume(forall([i], implies(and_(le(lo, i), lt(i, hi)), g)))
        if raises:
            loc = self.local_vars(i, pre, ctr0)
            conds = [solver.at_iter(strip_range(o.cond, i, lo, hi), keep=True) for o in raises]
            k = self.choose(1 + len(raises))
            if k == 0:
                for c in conds:
                    if c is None:
                        inexact = True
                        continue
                    vs = sorted((v for v in c.fv if loc(v)), key=lambda v: v.args[0])
                    self.assume(forall([i] + vs, implies(and_(le(lo, i), lt(i, hi)), not_(c))))
                if inexact:
                    self.assume(INEXACT)
            else:
                c = conds[k - 1]
                w = self.new("bad_iter")
                self.path(and_(le(lo, w), lt(w, hi)))
                if c is not None:
                    self.path(subst(c, {i: w}))
                # which iteration raises first is not tracked: what the earlier ones did not do is not known
                if c is None or inexact:
                    self.assume(INEXACT)
                raise raises[k - 1].val
        elif inexact:
            self.assume(INEXACT)

    def local_vars(self, i, pre, ctr0):
        known = {p for p in pre.values() if isinstance(p, T)}

        def loc(v):
            n = v.args[0] if isinstance(v, T) else v
            if v is i or v in known or v in pre.values() or "~" not in n:
                return False
            t = n.rsplit("~", 1)[1]
            return t.isdigit() and int(t) > ctr0
        return loc

    def locals_of(self, i, pre, outs, ctr0):
        """symbols made in the body get a value of their own in every iteration: their definition, or a function of the iteration"""
        loc = self.local_vars(i, pre, ctr0)
        defs = {}
        for o in outs:
            for f in o.st.facts:
                if f.op == "eq":
                    for v in f.fv:
                        if loc(v) and v not in defs:
                            s = pv._solve(f.args[0], v)
                            if s is not None and v not in s.fv:
                                defs[v] = s

        def localise(t, keep=False):
            if t is None:
                return None
            for _ in range(6):
                m = {v: defs[v] for v in t.fv if v in defs}
                if not m:
                    break
                t = subst(t, m)
            m = {} if keep else {v: app("sk_" + v.args[0], i, sort=v.sort) for v in t.fv if loc(v)}
            fns = {}
            for f in t.fs:
                if loc(f) and not f.startswith("sk_"):
                    fns[f] = f
            if m or fns:
                srt = {s.args[0]: s.sort for s in subterms(t) if s.op == "app" and s.args[0] in fns}
                t = subst(t, m, {f: (lambda *x, f=f: app("sk_" + f, i, *x, sort=srt.get(f, "R"))) for f in fns})
            return t
        return localise

    def last_value(self, l, after, solver, i, lo, hi):
        v = after.fr[l[1]].get(l[2], UNBOUND)
        if v is UNBOUND or not is_scalar(v) or self.truth(lt(lo, hi)) is not True:
            return None
        e = solver.at_iter(lift(v))
        return None if e is None else subst(e, {i: sub(hi, ONE)})

    def loc_val(self, l, st, vs=()):
        if st is None:
            return None
        if l[0] == "var":
            v = st.fr[l[1]].get(l[2])
            if isinstance(v, Arr) and vs and v.ndim == len(vs):
                shp = self.st.fr[l[1]][l[2]].shape
                if not all(self.w.dims_equal(self, x, y) for x, y in zip(shp, v.shape)):
                    return None
                if st.fid == self.st.fid and v.cell in self.st.heap and st.fr[l[1]][l[2]] is not self.st.fr[l[1]][l[2]]:
                    return None          # bound to an array that lives longer than the iteration
                return st.heap[v.cell].at(v.index(vs))
            return lift(v) if is_scalar(v) else None
        if l[0] == "cell":
            return st.heap[l[1]].at(vs) if vs else None
        if l[0] == "key":
            v = st.heap[l[1]].get(l[2])
            return lift(v) if is_scalar(v) else None

    def set_loc(self, l, v):
        if l[0] == "var":
            old = self.st.fr[l[1]].get(l[2])
            if l in self.arrvars and isinstance(old, Arr):
                vs = self.arrvars[l]
                self.st.fr[l[1]][l[2]] = self.array(old.shape, lambda *ix: subst(v, dict(zip(vs, ix))), v.sort, str(l[2]))
                return
            self.st.fr[l[1]][l[2]] = v
        elif l[0] == "cell":
            c = self.st.heap[l[1]]
            dt = c.dt if v.sort == c.dt or c.dt == "R" else v.sort
            if self.naming and len(c.shape) == 1 and (v.has & 1) and v.sort == "R":
                v = pv.name_vector(c.vars, v)
            self.st.heap[l[1]] = Cell(c.shape, c.vars, v, dt, c.name, c.meta)
        elif l[0] == "key":
            d = dict(self.st.heap[l[1]])
            d[l[2]] = v
            self.st.heap[l[1]] = d

    # ------------------------------------------------------------ expressions
    def index(self, e):
        if e.k == "Tuple":
            return tuple(self.index(x) for x in e.elts)
        if e.k == "Slice":
            g = lambda x: None if x is None or (x.k == "Const" and x.value is None) else self.ev(x)
            return SliceV(g(e.lo), g(e.hi), g(e.step))
        return self.ev(e)

    def ev(self, e):
        f = getattr(self, "e_" + e.k, None)
        if f is None:
            raise Unsupported("expression %s at line %d" % (e.k if e.k != "Unsupported" else e.what, e.line))
        v = f(e)
        if isinstance(v, Poison):
            raise Unsupported("use of an undetermined value (%s) at line %d" % (v.why, e.line))
        return v

    def e_Const(self, e):
        v = e.value
        if isinstance(v, dict):
            return Fraction(v["float"].rstrip("fFlL"))
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return app("const:%r" % v, sort="R")
            return Fraction(repr(v))
        return v

    def e_Name(self, e):
        env = self.env
        if e.id in env:
            return env[e.id]
        c = env.get("__closure__")
        while c is not None:
            en = self.st.fr[c]
            if e.id in en:
                return en[e.id]
            c = en.get("__closure__")
        return self.w.global_name(self, env.get("__module__"), e.id)

    def e_BinOp(self, e):
        return self.w.binop(self, e.op, self.ev(e.left), self.ev(e.right))

    def e_UnOp(self, e):
        if e.op == "not":
            c = self.cond(e.operand)
            return (not c) if isinstance(c, bool) else not_(c)
        return self.w.unop(self, e.op, self.ev(e.operand))

    def e_BoolOp(self, e):
        # value semantics only for booleans; `a or b` on other values needs a decided first operand
        v = self.ev(e.values[0])
        if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
            return self.boolop(e)
        for x in e.values[1:]:
            t = self.w.truthy(self, v)
            if isinstance(t, T):
                t2 = self.truth(t)
                if t2 is None:
                    return self.boolop(e)
                t = t2
            if t != (e.op == "and"):
                return v
            v = self.ev(x)
        return v

    def e_Compare(self, e):
        l = self.ev(e.left)
        acc = []
        for op, c in zip(e.ops, e.comps):
            r = self.ev(c)
            acc.append(self.w.compare(self, op, l, r))
            l = r
        if len(acc) == 1:
            return acc[0]
        if all(isinstance(a, bool) for a in acc):
            return all(acc)
        return and_(*[T_(a) for a in acc])

    def e_Attr(self, e):
        return self.w.getattr(self, self.ev(e.value), e.attr)

    def e_Index(self, e):
        return self.w.getitem(self, self.ev(e.value), self.index(e.index))

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if x.k == "Star":
                out += self.w.listing(self, self.ev(x.value))
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_List(self, e):
        if not e.elts and getattr(self.w, "empty_list_is_heap", False):
            import lib_cpp
            return lib_cpp.new_heap(self)
        return self.alloc(list(self.e_Tuple(e)), "list")

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not (isinstance(o, H) and o.kind == "dict"):
                    raise Unsupported("** of a non-dict")
                d.update(self.st.heap[o.id])
            else:
                kk = self.ev(k)
                if not isinstance(kk, (str, int)):
                    raise Unsupported("symbolic dictionary key")
                d[kk] = self.ev(v)
        return self.alloc(d, "dict")

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if isinstance(c, T):
            t = self.truth(c)
            c = c if t is None else t
        if c is True or c is TRUE:
            return self.ev(e.body)
        if c is False or c is FALSE:
            return self.ev(e.orelse)
        base = self.st
        outs = []
        for cc, x in ((c, e.body), (not_(c), e.orelse)):
            self.st = base.copy()

            def th(cc=cc, x=x):
                self.path(cc)
                return self.ev(x)
            outs += self.explore(th)
        self.st = base
        try:
            if all(o.sig is None for o in outs) and len(outs) == 2 and not self.locations(base, outs[0].st) and not self.locations(base, outs[1].st):
                return self.mval(c, outs[0].val, outs[1].val)
        except NoMerge:
            pass
        k = self.choose(2)
        self.path(c if k == 0 else not_(c))
        return self.ev(e.body if k == 0 else e.orelse)

    def e_Star(self, e):
        raise Unsupported("star expression")

    def e_FStr(self, e):
        parts = []
        for p in e.parts:
            v = self.ev(p)
            if not isinstance(v, str):
                return self.opaque_str()
            parts.append(v)
        return "".join(parts)

    def opaque_str(self):
        return "<text>"

    def e_FVal(self, e):
        v = self.ev(e.value)
        return v if isinstance(v, str) else None

    def e_Lambda(self, e):
        f = N("Func", e.line, name="<lambda>", args=e.args, body=[N("Return", e.line, value=e.body)], decorators=[], gen=False, lang="py")
        return FuncV(f, self.cur_mod(), closure=self.st.fid)

    def e_Comp(self, e):
        return self.w.comprehension(self, e)

    def e_Yield(self, e):
        if self.yield_hook is None:
            raise Unsupported("yield")
        self.yield_hook(self.ev(e.value))
        return None

    def e_AddrOf(self, e):
        v = e.value
        if v.k == "Name":
            x = self.env.get(v.id)
            if isinstance(x, (Arr, Ptr)):
                raise Unsupported("address of a pointer")
            return Ref(self.st.fid, v.id)
        if v.k == "Index":
            o, ix = self.ev(v.value), self.index(v.index)
            return self.w.addr(self, o, ix)
        raise Unsupported("address of " + v.k)

    def e_Cast(self, e):
        v = self.ev(e.value)
        if getattr(e, "c", False) and e.type == "size_t" and is_scalar(v):
            self.oblige("%s a size is not negative" % self.where(), le(ZERO, lift(v)), "bounds")
        return self.w.cast(self, e.type, v)

    def s_Stable(self, s):
        """the bound of a C loop keeps its value"""
        a, b = lift(self.ev(s.value)), lift(self.env[s.name])
        if a is not b and self.truth(eq(a, b)) is not True:
            raise Unsupported("the bound of a loop changes")

    def e_SizeOf(self, e):
        return ("sizeof", e.type)

    def e_New(self, e):
        return self.w.new_type(self, e.type)

    def e_Call(self, e):
        return self.w.call_expr(self, e)

    def args_of(self, e):
        args = []
        for a in e.args:
            if a.k == "Star":
                args += self.w.listing(self, self.ev(a.value))
            else:
                args.append(self.ev(a))
        kw = {}
        for k, v in e.kwargs:
            if k is None:
                o = self.ev(v)
                if not (isinstance(o, H) and o.kind == "dict"):
                    raise Unsupported("** of a non-dict")
                kw.update(self.st.heap[o.id])
            else:
                kw[k] = self.ev(v)
        return args, kw

    # ------------------------------------------------------------ calls
    def bind(self, node, args, kw, mod, self_=None):
        env = {}
        args = list(args)
        if self_ is not None:
            args.insert(0, self_)
        kw = dict(kw)
        pos = [a for a in node.args if not a.star and not a.kw]
        star = next((a for a in node.args if a.star == "*"), None)
        dstar = next((a for a in node.args if a.star == "**"), None)
        if len(args) > len(pos) and star is None:
            raise PyRaise("TypeError")
        for a, v in zip(pos, args):
            env[a.name] = v
        if star is not None:
            env[star.name] = tuple(args[len(pos):])
        for a in node.args:
            if a.star or a.name in env:
                if a.name in kw and not a.star:
                    raise PyRaise("TypeError")
                continue
            if a.name in kw:
                env[a.name] = kw.pop(a.name)
            elif a.default is not None:
                env[a.name] = ("default", a.default)
            else:
                raise PyRaise("TypeError")
        if kw:
            if dstar is None:
                raise PyRaise("TypeError")
        if dstar is not None:
            env[dstar.name] = self.alloc(dict(kw), "dict")
        return env

    def call(self, f, args, kw):
        return self.w.call(self, f, args, kw)

    def run_function(self, f, args, kw, top=False):
        """execute the body of an IR function; exceptions propagate"""
        node = f.node
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        env = self.bind(node, args, kw, f.mod, f.self_)
        env["__module__"] = f.mod
        env["__closure__"] = f.closure
        env["__class__"] = f.cls
        old, fid = self.push(env)
        for a in node.args:
            v = env.get(a.name)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "default":
                self.st.fr[fid][a.name] = self.ev(v[1])
        for a in node.args:
            if getattr(a, "type", None):
                self.types[(fid, a.name)] = a.type
                self.st.fr[fid][a.name] = self.w.coerce(self, self.st.fr[fid][a.name], a.type)
        self.unchecked.append(getattr(node, "lang", "py") != "py")
        self.calls.append(node.name)
        try:
            try:
                self.block(node.body)
                val = None
            except Ret as r:
                val = r.val
        finally:
            self.depth -= 1
            self.unchecked.pop()
            self.calls.pop()
        self.st.fid = old
        self.st.fr.pop(fid, None)
        return val


INEXACT = var("inexact!", "B")      # facts were dropped on this path: a counterexample would not be one


class Dead(Exception):
    pass


def b_or_num(v, dt):
    v = lift(v)
    if dt == "B":
        if v.sort != "B":
            v = ne(v, ZERO)
        return v
    if v.sort == "B":
        return ite(v, ONE, ZERO)
    return v


def strip_range(c, i, lo, hi):
    drop = {le(lo, i).id, lt(i, hi).id}
    if c.op == "and":
        return and_(*[x for x in c.args if x.id not in drop])
    if c.op == "or":
        return or_(*[strip_range(x, i, lo, hi) for x in c.args])
    return TRUE if c.id in drop else c


def finite(v, base):
    """None, or an object that exists before the loop"""
    return v is None or isinstance(v, Builtin) or (isinstance(v, H) and v.id in base.heap)


class LoopSolver:
    def __init__(self, ip, i, lo, hi, eqs, init, pre, bcond, parallel, base):
        self.ip, self.i, self.lo, self.hi = ip, i, lo, hi
        self.eqs, self.init, self.pre, self.bcond, self.parallel, self.base = eqs, init, pre, bcond, parallel, base
        self.vm, self.fm = {}, {}        # closed forms at the start of iteration i
        self.final = {}
        self.kinds = {}
        self.failed = []

    def cellvars(self, l):
        return self.ip.st.heap[l[1]].vars if l[0] == "cell" else self.ip.arrvars[l] if isinstance(self.pre[l], str) else ()

    def sym(self, l):
        p = self.pre[l]
        return p if isinstance(p, T) else None

    def deps(self, e, among):
        out = set()
        for l in among:
            p = self.pre[l]
            if isinstance(p, T):
                if p in e.fv:
                    out.add(l)
            elif p in e.fs:
                out.add(l)
        return out

    def sub(self, e):
        return subst(e, self.vm, self.fm)

    def at_iter(self, e, keep=False):
        """value of a term of the generic iteration, or None when it depends on something unsolved"""
        r = self.sub(self.localise(e, keep))
        left = [l for l in self.pre if l not in self.closed]
        if self.deps(r, left):
            return None
        return r

    def put(self, l, closed, final, kind):
        p = self.pre[l]
        if isinstance(p, T):
            self.vm[p] = closed
        else:
            vs = self.cellvars(l)
            self.fm[p] = lambda *idx, c=closed, vs=vs: subst(c, dict(zip(vs, idx)))
        self.final[l] = final
        self.kinds[l] = kind
        self.closed.add(l)

    def solve(self):
        self.closed = set()
        i, lo, hi = self.i, self.lo, self.hi
        todo = set(self.eqs)
        done_sym = None
        if self.bcond is not None:
            # a break: either it only depends on the iteration, or everything becomes a recurrence
            b = self.bcond
            if not self.deps(b, todo):
                k = tm.fresh("k")
                stopped = lambda at: exists([k], and_(le(lo, k), lt(k, at), subst(b, {i: k})))
                s = stopped(i)
                for l in list(self.eqs):
                    p = self.pre_term(l)
                    self.eqs[l] = ite(s, p, self.eqs[l])
            else:
                return self.solve_break_rec()
        if sub(hi, lo) is ONE and self.bcond is None:
            # a single iteration
            vm, fm = {i: lo}, {}
            for l in todo:
                p = self.pre[l]
                if isinstance(p, T):
                    vm[p] = self.init[l]
                else:
                    fm[p] = lambda *idx, c=self.init[l], vs=self.cellvars(l): subst(c, dict(zip(vs, idx)))
            fin = {l: subst(self.eqs[l], vm, fm) for l in todo}
            for l in todo:
                self.put(l, self.init[l], fin[l], "slice")
            return
        guard = 0
        while todo:
            guard += 1
            cur = {l: self.sub(self.eqs[l]) for l in todo}
            graph = {l: self.deps(cur[l], todo) for l in todo}
            progress = False
            for scc in sccs(graph):
                if any(d in todo and d not in scc for l in scc for d in graph[l]):
                    continue
                if self.try_scc(scc, cur, graph):
                    todo -= set(scc)
                    progress = True
                    break
                else:
                    todo -= set(scc)
                    self.failed += list(scc)
                    progress = True
                    break
            if not progress or guard > 200:
                break

    def pre_term(self, l):
        p = self.pre[l]
        if isinstance(p, T):
            return p
        return app(p, *self.cellvars(l), sort=self.sort(l))

    def sort(self, l):
        if isinstance(self.pre[l], str):
            e = self.eqs[l]
            for s in subterms(e):
                if s.op == "app" and s.args[0] == self.pre[l]:
                    return s.sort
            return self.ip.st.heap[l[1]].dt if l[0] == "cell" else e.sort
        return self.pre[l].sort

    def try_scc(self, scc, cur, graph):
        i, lo, hi = self.i, self.lo, self.hi
        if any(l in self.failed for l in scc):
            return False
        bad = [l for l in self.pre if l in self.failed]
        if any(self.deps(cur[l], bad) for l in scc):
            return False
        if len(scc) == 1:
            l = scc[0]
            e, init = cur[l], self.init[l]
            self_dep = l in graph[l]
            if not self_dep:
                # row-wise even without reading itself?  written slice only
                if l[0] == "cell" and self.slicewise(l, e):
                    return True
                if self.parallel:
                    if l[0] == "cell":
                        return False
                    self.final[l] = ite(lt(lo, hi), subst(e, {i: sub(hi, ONE)}), init)
                    self.failed.append(l)
                    return True
                last = subst(e, {i: sub(i, ONE)})
                fin = subst(e, {i: sub(hi, ONE)})
                ne_ = lt(lo, hi)
                self.put(l, ite(lt(lo, i), last, init), ite(ne_, fin, init), "last")
                return True
            p = self.pre_term(l)
            if e is p:
                self.put(l, init, init, "same")
                return True
            # additive
            d = split_add(e, p)
            if d is None and l[0] == "cell":
                if self.slicewise(l, e):
                    return True
                d = split_add(scatter(e, p), p)
            if d is not None and not self.deps(d, [l]) and d.sort in ("I", "R") and not (
                    self.parallel and (l[0] != "var" or l[2] not in self.ip.red)):
                k = tm.fresh("k")
                dk = subst(d, {i: k})
                at_i = mk_sum(k, lo, i, dk)
                if k not in dk.fv:
                    at_i = mul(sub(i, lo), dk)
                self.put(l, add(init, at_i), add(init, mk_sum(k, lo, hi, dk)), "additive")
                return True
            if l[0] == "cell" and self.slicewise(l, e):
                return True
            if l[0] == "cell" and e.op == "ite" and p in e.args[1:] and not self.parallel:
                # a fixed value is written wherever c(i) holds
                c, v = (e.args[0], e.args[1]) if e.args[2] is p else (not_(e.args[0]), e.args[2])
                if i not in v.fv and not self.deps(v, [l]) and not self.deps(c, [l]):
                    k = tm.fresh("k")
                    f = lambda at: ite(exists([k], and_(le(lo, k), lt(k, at), subst(c, {i: k}))), v, init)
                    self.put(l, f(i), f(hi), "set")
                    return True
            if e.sort == "B" and isinstance(self.pre[l], T) and not self.parallel:
                # flag := flag or c(i)
                c = split_or(e, p)
                if c is not None and not self.deps(c, [l]):
                    k = tm.fresh("k")
                    f = lambda at: or_(init, exists([k], and_(le(lo, k), lt(k, at), subst(c, {i: k}))))
                    self.put(l, f(i), f(hi), "or")
                    return True
        if len(scc) > 1 and not self.parallel and all(l[0] == "cell" for l in scc) and self.joint_slices(scc, cur):
            return True
        return self.recurrence(scc, cur)

    def joint_slices(self, scc, cur):
        """several arrays that depend on each other, of each of which iteration i writes only the slice h == i, reading only
        slices no iteration before it has written"""
        i, lo, hi = self.i, self.lo, self.hi
        sl = {}
        for l in scc:
            c = self.ip.st.heap[l[1]]
            vs, e, p = c.vars, cur[l], self.pre_term(l)
            inr = tuple(x for v, n in zip(vs, c.shape) for x in (le(ZERO, v), lt(v, n)))
            hyps = self.base.facts + self.base.pc + inr + (le(lo, i), lt(i, hi))
            cands = []
            for s in subterms(e):
                if s.op == "eq" and i in s.fv and (s.fv & set(vs)):
                    h = pv._solve(s.args[0], i)
                    if h is not None and h not in cands and (h.fv & set(vs)):
                        cands.append(h)
            for h in cands:
                out = simp(hyps + (ne(i, h),), e)
                if out is p or (len(show(out)) < 4000 and pv.prove_eq(hyps + (ne(i, h),), out, p)):
                    sl[l] = (h, vs, inr)
                    break
            else:
                return False
        bodies = {}
        names = {self.pre[l]: l for l in scc}
        for l in scc:
            h, vs, inr = sl[l]
            hyp2 = self.base.facts + self.base.pc + inr + (le(lo, h), lt(h, hi))
            body = bodies[l] = simp(hyp2, subst(cur[l], {i: h}))
            for s in subterms_open(body):
                if s.op == "app" and s.args[0] in names:
                    h2, vs2, _ = sl[names[s.args[0]]]
                    hr = subst(h2, dict(zip(vs2, s.args[1:])))
                    if hr is h:
                        continue
                    if any(v.args[0][0] == "$" for v in hr.fv) or decide(hyp2, le(h, hr)) is not True:
                        return False
        fn = {self.pre[l]: (lambda *idx, t=self.init[l], vs=sl[l][1]: subst(t, dict(zip(vs, idx)))) for l in scc}
        res = []
        for l in scc:
            h = sl[l][0]
            done = subst(bodies[l], {}, fn)
            res.append((l, ite(and_(le(lo, h), lt(h, i)), done, self.init[l]), ite(and_(le(lo, h), lt(h, hi)), done, self.init[l])))
        for l, closed, final in res:
            self.put(l, closed, final, "slice")
        return True

    def slicewise(self, l, e):
        """iteration i only writes the slice h(index) == i, and only reads slices not yet written"""
        i, lo, hi = self.i, self.lo, self.hi
        c = self.ip.st.heap[l[1]]
        vs = c.vars
        p = self.pre_term(l)
        cands = []
        for s in subterms(e):
            if s.op == "eq" and i in s.fv and (s.fv & set(vs)):
                h = pv._solve(s.args[0], i)
                if h is not None and h not in cands and (h.fv & set(vs)):
                    cands.append(h)
        for s in subterms(e):
            # an iteration that writes an interval: a*i <= t  <=>  i <= t div a
            if s.op == "le" and i in s.fv and (s.fv & set(vs)):
                h = interval_index(s.args[0], i)
                if h is not None and h not in cands and (h.fv & set(vs)):
                    cands.append(h)
        inr = [and_(le(ZERO, v), lt(v, n)) for v, n in zip(vs, c.shape)]
        hyps = self.base.facts + self.base.pc + tuple(inr) + (le(lo, i), lt(i, hi))
        for h in cands:
            out = simp(hyps + (ne(i, h),), e)
            if out is not p:
                r = pv.prove_eq(hyps + (ne(i, h),), out, p) if len(show(out)) < 4000 else None
                if not r:
                    continue
            body = subst(e, {i: h})
            hyp2 = self.base.facts + self.base.pc + tuple(inr) + (le(lo, h), lt(h, hi))
            body = simp(hyp2, body)
            # reads of the array itself
            ok = True
            f = self.pre[l]
            reads = set()
            for s in subterms_open(body):
                if s.op == "app" and s.args[0] == f:
                    reads.add(s)
            sl = {v: None for v in vs}
            for s in reads:
                hr = subst(h, dict(zip(vs, s.args[1:])))
                if hr is h:
                    continue
                if self.parallel or any(v.args[0][0] == "$" for v in hr.fv) or decide(hyp2, le(h, hr)) is not True:
                    ok = False
            if not ok:
                continue
            init = self.init[l]
            fn = {f: lambda *idx: subst(init, dict(zip(vs, idx)))}
            done = subst(body, {}, fn)
            closed = ite(and_(le(lo, h), lt(h, i)), done, init)
            if self.parallel:
                closed = ite(or_(eq(h, i), lt(h, lo), le(hi, h)), init, app(self.ip.nm("racy"), *vs, sort=init.sort))
            final = ite(and_(le(lo, h), lt(h, hi)), done, init)
            self.put(l, closed, final, "slice")
            return True
        return False

    def fixed_slice(self, l, scc, cur):
        """(d, h): the array is only written, and only read by the recurrence, where index d is h (the same in all iterations)"""
        vs = self.cellvars(l)
        if len(vs) < 2:
            return None
        e, p = cur[l], self.pre_term(l)
        f = self.pre[l]
        for d, v in enumerate(vs):
            hs = []
            for s in subterms(e):
                if s.op == "eq" and v in s.fv:
                    h = pv._solve(s.args[0], v)
                    if h is not None and h not in hs and self.i not in h.fv and not (h.fv & set(vs)) and not self.deps(h, self.pre) \
                            and not any(x.args[0][0] == "$" for x in h.fv):
                        hs.append(h)
            for h in hs:
                hyps = self.base.facts + self.base.pc + (le(self.lo, self.i), lt(self.i, self.hi), ne(v, h))
                if simp(hyps, e) is not p:
                    continue
                e2 = subst(e, {v: h})
                ok = True
                for k in scc:
                    for s in subterms(e2 if k == l else cur[k]):
                        if s.op == "app" and s.args[0] == f and s.args[1 + d] is not h:
                            ok = False
                if ok:
                    return d, h
        return None

    def recurrence(self, scc, cur):
        i, lo, hi = self.i, self.lo, self.hi
        if self.parallel:
            return False
        scc = sorted(scc, key=str)
        names, inits, steps = [], [], []
        kv = tm.fresh("k")
        fns, vmap, red = {}, {}, {}
        cur = dict(cur)
        for l in scc:
            red[l] = self.fixed_slice(l, scc, cur)
        for l in scc:
            if red[l]:
                d, h = red[l]
                cur[l] = subst(cur[l], {self.cellvars(l)[d]: h})
        drop = lambda l, ix: tuple(x for n, x in enumerate(ix) if not (red[l] and n == red[l][0]))
        for n, l in enumerate(scc):
            nm = "rc!%d" % next(tm._fresh)
            names.append(nm)
            p = self.pre[l]
            srt = self.sort(l)
            if isinstance(p, T):
                vmap[p] = mk("app", (nm,), srt)
            else:
                fns[p] = lambda *idx, nm=nm, srt=srt, l=l: mk("app", (nm,) + drop(l, idx), srt)
        for l in scc:
            vs = self.cellvars(l)
            init = self.init[l]
            if red[l]:
                init = subst(init, {vs[red[l][0]]: red[l][1]})
            vs = drop(l, vs)
            inits.append(mk_lam(vs, init) if vs else init)
            b = subst(cur[l], {**vmap, i: add(lo, kv)}, fns)
            steps.append(mk_lam((kv,) + tuple(vs), b))
        for j, l in enumerate(scc):
            vs = self.cellvars(l)
            ix = drop(l, vs)
            closed = mk_rec(j, sub(i, lo), ix, inits, steps, names)
            n = max_(sub(hi, lo), ZERO)
            if decide(self.base.facts + self.base.pc, le(lo, hi)) is True:
                n = sub(hi, lo)
            final = mk_rec(j, n, ix, inits, steps, names)
            if red[l]:
                c = eq(vs[red[l][0]], red[l][1])
                closed, final = ite(c, closed, self.init[l]), ite(c, final, self.init[l])
            self.put(l, closed, final, "recurrence")
        return True

    def solve_break_rec(self):
        """everything that changes, plus a stopped flag, as one recurrence"""
        i = self.i
        d = var("stopped!%d" % next(tm._fresh), "B")
        l0 = ("flag", 0, d.args[0])
        self.pre = dict(self.pre)
        self.pre[l0] = d
        # locations that are read before being written, transitively from themselves, are the state
        eqs = {}
        for l, e in self.eqs.items():
            eqs[l] = ite(d, self.pre_term(l), e)
        eqs[l0] = or_(d, self.bcond)
        self.init = dict(self.init)
        self.init[l0] = FALSE
        live = set()
        cur = dict(eqs)
        # drop locations nobody else reads and that do not feed themselves: they are determined by the others
        carried = {l for l in self.eqs if any(l in self.deps(self.eqs[k], self.eqs) for k in self.eqs) or l in self.deps(self.bcond, self.eqs)}
        state = sorted(carried, key=str) + [l0]
        self.eqs = eqs
        if not self.recurrence(state, cur):
            return
        for l in list(self.eqs):
            if l not in carried and l is not l0:
                self.failed.append(l)
        self.final.pop(l0, None)

    def rewrite_obligations(self):
        """obligations recorded inside the generic iteration mention the symbols for values at its start"""
        ip = self.ip
        syms = {p for p in self.pre.values()}
        fnames = {p for p in syms if isinstance(p, str)}
        vnames = {p for p in syms if isinstance(p, T)}
        for o in ip.obl:
            ts = list(o.hyps) + [o.goal] + (list(o.eq) if o.eq else [])
            if any((t.fv & vnames) or (t.fs & fnames) for t in ts):
                o.hyps = tuple(self.sub(h) for h in o.hyps)
                o.goal = self.sub(o.goal)
                if o.eq:
                    o.eq = tuple(self.sub(t) for t in o.eq)


def scatter(e, p):
    """where the position written is the one looked at, the old value there is the old value here"""
    if e.op != "ite" or p.op != "app":
        return e
    c, a, b = e.args
    conj = c.args if c.op == "and" else (c,)

    def old(*xs):
        if all(x is y or eq(x, y) in conj for x, y in zip(xs, p.args[1:])):
            return p
        return app(p.args[0], *xs, sort=p.sort)
    return ite(c, scatter(subst(a, {}, {p.args[0]: old}), p), scatter(b, p))


def subterms_open(t):
    return subterms(t)


def interval_index(t, i):
    """t <= 0 with t = a*i + r, a a positive constant: the largest such i"""
    z = subst(t, {i: ZERO})
    a = sub(subst(t, {i: ONE}), z)
    if a.op != "num" or a.args[0] <= 0 or a.args[0] != int(a.args[0]) or sub(t, add(mul(a, i), z)) is not ZERO:
        return None
    return neg(z) if isnum(a, 1) else app("fdiv", neg(z), a, sort="I")


def split_or(e, p):
    if e is p:
        return FALSE
    if e.op == "or" and p in e.args:
        return or_(*[x for x in e.args if x is not p])
    return None


def sccs(graph):
    """strongly connected components in reverse topological order (dependencies first)"""
    index, low, stack, on, out = {}, {}, [], set(), []
    counter = [0]

    def go(v):
        index[v] = low[v] = counter[0]
        counter[0] += 1
        stack.append(v)
        on.add(v)
        for w in sorted(graph[v], key=str):
            if w not in graph:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = stack.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in sorted(graph, key=str):
        if v not in index:
            go(v)
    return out
