"""The world the interpreter runs in: modules of /repo (parsed anew in every run), values, attribute access, calls.

A call to a function with a contract in force uses the contract (`summaries`); every other function of /repo is executed
inline.  Library functions are the models in lib_np.py / lib_c.py; anything without a model raises Unsupported."""
import json
import os
import subprocess
from fractions import Fraction

import interp as I
from interp import (Arr, Builtin, Cell, ClsV, DType, FuncV, H, ModV, Poison, Ptr, PyRaise, Ref, SliceV, Unsupported, Ret,
                    Brk, Cont, is_scalar, lift)
from ir import N, from_json, py_module, walk
from terms import *  # noqa
import terms as tm
import prover as pv
from prover import decide, simp

REPO = os.environ.get("VERIF_REPO", "/repo")
PYBUILD = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


class RangeV:
    def __init__(self, lo, hi, step=ONE, parallel=False):
        self.lo, self.hi, self.step, self.parallel = lo, hi, step, parallel


class EnumV:
    def __init__(self, it, start=ZERO):
        self.it, self.start = it, start


class ZipV:
    def __init__(self, its):
        self.its = its


class GenV:
    """call of a generator function, not started"""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class CompV:
    """generator expression, not started"""
    def __init__(self, node, fid):
        self.node, self.fid = node, fid


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def __eq__(self, o):
        return isinstance(o, Partial) and o.f == self.f and o.kw == self.kw

    def __hash__(self):
        return 7


class Bytes:
    """a number of bytes: count elements of a C type"""
    def __init__(self, typ, count):
        self.typ, self.count = typ, count


class Opaque:
    """a value of which nothing is used but its identity (text, timers, loggers)"""
    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.what == self.what

    def __hash__(self):
        return hash(self.what)


_parsed = {}


def parse_tree(repo=REPO):
    """{module name: IR} for every module of the package"""
    if repo in _parsed:
        return _parsed[repo]
    py, pyx = [], []
    for d, _, fs in os.walk(os.path.join(repo, "implicit")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            if rel.startswith("implicit/gpu/") and f != "__init__.py":
                continue
            if f.endswith(".py"):
                py.append(p)
            elif f.endswith(".pyx"):
                pyx.append(p)
    mods = {}

    def name(p):
        r = os.path.relpath(p, repo).rsplit(".", 1)[0].replace(os.sep, ".")
        return r[:-9] if r.endswith(".__init__") else r
    errors = {}
    for p in py:
        try:
            mods[name(p)] = py_module(p)
        except SyntaxError as e:
            errors[name(p)] = str(e)
    r = subprocess.run([PYBUILD, os.path.join(HERE, "cy2ir.py")] + pyx, capture_output=True, text=True)
    if r.returncode != 0:
        errors["cython"] = r.stderr[-1500:]
    else:
        for p, j in json.loads(r.stdout).items():
            mods[name(p)] = from_json(j)
    import cpp2ir
    m, e = cpp2ir.parse(repo)
    if m is None:
        errors[cpp2ir.MODULE] = e
    else:
        mods[cpp2ir.MODULE] = m
    _parsed[repo] = (mods, errors)
    return _parsed[repo]


class World:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods, self.errors = parse_tree(repo)
        self.tops = {}
        self.invariant = None   # loop invariants: (ip, node, base, locations, i, lo, hi) -> None or (ip, i) -> [(name, formula)]
        self.observer = None    # called with the generic iteration of a loop
        self.summaries = {}              # qualified name -> function(ip, f, args, kw) -> value
        self.isscalar_hook = None
        self.inlined = set()
        self.used = set()
        self.trusted = set()             # library models used
        self.models = {}
        self.methods = {}
        self.csr_methods = {}
        self.attr_hooks = []
        import lib_np
        import lib_c
        lib_np.install(self)
        import lib_rand
        lib_rand.install(self)
        lib_c.install(self)
        import lib_io
        lib_io.install(self)
        import lib_cpp
        lib_cpp.install(self)

    # ------------------------------------------------------------ modules
    def top(self, mod):
        """top level definitions of a module of the package"""
        if mod in self.tops:
            return self.tops[mod]
        env = {}
        self.tops[mod] = env
        m = self.mods.get(mod)
        if m is None:
            return env
        pkg = mod if mod + ".x" in self.mods or os.path.basename(m.path) == "__init__.py" else mod.rsplit(".", 1)[0]
        for s in m.body:
            self.top_stmt(mod, pkg, s, env)
        return env

    def top_stmt(self, mod, pkg, s, env):
        if s.k == "Func":
            env[s.name] = FuncV(s, mod)
        elif s.k == "Class":
            env[s.name] = ClsV(s.name, s, mod, s.bases)
        elif s.k == "Import":
            for n, a in s.names:
                env[a or n.split(".")[0]] = ModV(n if a else n.split(".")[0])
        elif s.k == "From":
            base = s.module
            if s.level:
                parts = pkg.split(".")
                parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
                base = ".".join(parts + ([s.module] if s.module else []))
            for n, a in s.names:
                env[a or n] = ("import", base, n)
        elif s.k == "Assign" and len(s.targets) == 1 and s.targets[0].k == "Name":
            env[s.targets[0].id] = ("const", s.value)
        elif s.k == "Decl":
            if s.value is not None:
                env[s.name] = ("const", s.value)
        elif s.k == "Try":
            for t in s.body:
                self.top_stmt(mod, pkg, t, env)

    def module(self, name):
        return ModV(name)

    def from_import(self, ip, cur, s, name):
        base = s.module
        if s.level:
            parts = (cur or "").split(".")
            parts = parts[:len(parts) - s.level]
            base = ".".join(parts + ([s.module] if s.module else []))
        return self.resolve(ip, ("import", base, name))

    def resolve(self, ip, v, mod=None):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "import":
            _, base, n = v
            if base + "." + n in self.mods:
                return ModV(base + "." + n)
            if base in self.mods:
                t = self.top(base)
                if n in t:
                    return self.resolve(ip, t[n], base)
                raise Unsupported("import of %s from %s" % (n, base))
            return self.external(base + "." + n)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "const":
            old, fid = ip.push({"__module__": mod, "__closure__": None})
            try:
                return ip.ev(v[1])
            finally:
                ip.st.fid = old
                ip.st.fr.pop(fid, None)
        return v

    def global_name(self, ip, mod, name):
        if mod in self.mods:
            t = self.top(mod)
            if name in t:
                return self.resolve(ip, t[name], mod)
        r = self.builtin_name(name)
        if r is not None:
            return r
        if "%s:%s" % (mod, name) in self.models:
            return Builtin("%s:%s" % (mod, name), self.models["%s:%s" % (mod, name)])
        raise Unsupported("unknown name %s in %s" % (name, mod))

    EXC = {"ValueError", "IndexError", "NotImplementedError", "TypeError", "KeyError", "Exception", "RuntimeWarning",
           "DeprecationWarning", "ZeroDivisionError", "AttributeError", "StopIteration", "RuntimeError", "UserWarning"}

    def builtin_name(self, name):
        if name in ("floating", "double", "float32_t", "integral", "long"):
            return ("ctype", name)
        if name in self.EXC:
            return ClsV(name)
        if name in ("str", "list", "dict", "tuple", "object", "set"):
            return ClsV(name)
        if "builtins." + name in self.models:
            return Builtin("builtins." + name, self.models["builtins." + name])
        return None

    def external(self, dotted):
        """a library object by its dotted name"""
        d = canon(dotted)
        if d in self.models:
            return Builtin(d, self.models[d])
        if d in DTYPES:
            return DType(DTYPES[d])
        if d in CLASSES:
            return ClsV(CLASSES[d], None, "ext")
        if d in CONSTS:
            return CONSTS[d]
        return ModV(d)

    # ------------------------------------------------------------ types
    def coerce(self, ip, v, t):
        t = t.replace(" ", "").replace("const", "")
        if isinstance(v, Poison) or v is None:
            return v
        if t.endswith("]") and ":" in t:
            nd = t[t.index("["):].count(":")
            if isinstance(v, Arr):
                if v.ndim != nd:
                    raise PyRaise("ValueError")
                return Arr(v.cell, v.shape, v.maps, "memview")
            if isinstance(v, H) and v.kind == "list":
                return v
            raise Unsupported("memoryview of %r" % (v,))
        if t.endswith("*"):
            return v
        base = t
        if base in ("int", "long", "integral", "unsignedint", "size_t", "Py_ssize_t", "unsignedlong", "short", "char"):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, (Fraction, float)):
                return int(v)
            if isinstance(v, T) and v.sort == "B":
                return ite(v, ONE, ZERO)
            if isinstance(v, T) and v.sort == "R":
                return app("trunc", v, sort="I")
            return v
        if base in ("float", "double", "floating"):
            if isinstance(v, T) and v.sort == "B":
                return ite(v, ONE, ZERO)
            if isinstance(v, bool):
                return int(v)
            return v
        if base in ("bool", "bint"):
            c = self.truthy(ip, v)
            return c
        return v

    def default(self, ip, t):
        t = t.replace(" ", "")
        for hook in self.attr_hooks:
            r = getattr(hook, "default", lambda *a: None)(ip, t)
            if r is not None:
                return r
        return None

    def cast(self, ip, t, v):
        t = t.replace(" ", "")
        if t.endswith("*"):
            return v
        return self.coerce(ip, v, t)

    # ------------------------------------------------------------ truth and comparison
    def truthy(self, ip, v):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, T):
            if v.sort == "B":
                return v is TRUE if v in (TRUE, FALSE) else v
            c = ne(v, ZERO)
            return c is TRUE if c in (TRUE, FALSE) else c
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, H):
            if v.kind in ("list", "dict"):
                r = ip.st.heap[v.id]
                if isinstance(r, (list, dict)):
                    return len(r) > 0
                return self.truthy(ip, self.len(ip, v))
            return True
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truthy(ip, ip.get(v, ()))
            raise Unsupported("truth value of an array")
        return True

    def compare(self, ip, op, a, b):
        if op in ("is", "is not"):
            r = self.identical(ip, a, b)
            if isinstance(r, bool):
                return r if op == "is" else not r
            return r if op == "is" else not_(r)
        if op in ("in", "not in"):
            r = self.contains(ip, a, b)
            if isinstance(r, bool):
                return r if op == "in" else not r
            return r if op == "in" else not_(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(ip, lambda x, y: self.cmp_terms(op, x, y), [a, b], "B")
        if is_scalar(a) and is_scalar(b):
            r = self.cmp_terms(op, lift(a), lift(b))
            return r is TRUE if r in (TRUE, FALSE) else r
        for h in self.attr_hooks:
            r = getattr(h, "compare", lambda *x: None)(ip, op, a, b)
            if r is not None:
                return r
        if op in ("==", "!="):
            r = self.equal(ip, a, b)
            if isinstance(r, bool):
                return r if op == "==" else not r
            return r if op == "==" else not_(r)
        raise Unsupported("comparison %s of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def cmp_terms(self, op, x, y):
        f = {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}[op]
        return f(x, y)

    def equal(self, ip, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, DType) or isinstance(b, DType):
            a, b = dtype_of(a), dtype_of(b)
            if a is not None and b is not None and "?" not in (a.name or "?") + (b.name or "?"):
                return a.name == b.name
            return var("dtype_eq:%s:%s" % tuple(sorted((str(a), str(b)))), "B")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.compare(ip, "==", x, y) for x, y in zip(a, b)]
            r = and_(*[T_(x) for x in rs])
            return r is TRUE if r in (TRUE, FALSE) else r
        if type(a) is not type(b):
            return False
        if isinstance(a, (H, ModV, ClsV, Builtin, Opaque)):
            return a == b
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def identical(self, ip, a, b):
        if a is None or b is None:
            return a is b
        ct = lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "ctype"
        if ct(a) or ct(b):
            if ct(a) and (ct(b) or isinstance(b, ClsV) or isinstance(b, Builtin)):
                n = b[1] if ct(b) else b.name
                if a[1] == n:
                    return True
                return var("%s is %s" % (a[1], "double" if n == "double" else "float" if "float" in n else n), "B")
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, (H, ModV, ClsV)):
            return a == b
        raise Unsupported("identity test")

    def contains(self, ip, x, c):
        if isinstance(c, tuple) or (isinstance(c, H) and c.kind == "list" and isinstance(ip.st.heap[c.id], list)):
            xs = c if isinstance(c, tuple) else ip.st.heap[c.id]
            rs = [self.compare(ip, "==", x, y) for y in xs]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return or_(*[T_(r) for r in rs])
        if isinstance(c, H) and c.kind == "dict" and isinstance(x, (str, int)):
            return x in ip.st.heap[c.id]
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        for h in self.attr_hooks:
            r = getattr(h, "contains", lambda *a: None)(ip, x, c)
            if r is not None:
                return r
        raise Unsupported("membership test")

    # ------------------------------------------------------------ arithmetic
    def binop(self, ip, op, a, b):
        if isinstance(a, (Bytes, tuple)) and op in ("*", "+") and self.is_size(a) or self.is_size(b):
            return self.size_op(ip, op, a, b)
        if isinstance(a, str):
            if op == "%":
                return "<text>"
            if op == "+" and isinstance(b, str):
                return a + b
        if isinstance(a, Ptr) and op in ("+", "-"):
            off = lift(b)
            return self.ptr_add(ip, a, off if op == "+" else neg(off))
        if isinstance(b, Ptr) and op == "+":
            return self.ptr_add(ip, b, lift(a))
        for h in self.attr_hooks:
            r = getattr(h, "binop", lambda *x: None)(ip, op, a, b)
            if r is not None:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == "@":
                return self.models["numpy.dot"](ip, [a, b], {})
            return self.elementwise(ip, lambda x, y: self.scalar_op(ip, op, x, y), [a, b], None, op)
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, bool):
                a = int(a) if op not in ("&", "|", "^") else T_(a)
            if isinstance(b, bool):
                b = int(b) if op not in ("&", "|", "^") else T_(b)
            r = self.scalar_op(ip, op, lift(a), lift(b))
            return simple(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, H) and a.kind == "list" and op in ("+", "*"):
            la = ip.st.heap[a.id]
            if op == "+" and isinstance(b, H) and b.kind == "list":
                return ip.alloc(list(la) + list(ip.st.heap[b.id]), "list")
        if self.is_sparse(a) or self.is_sparse(b):
            import lib_np
            return lib_np.sparse_binop(self, ip, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("arith")
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    def is_size(self, v):
        return isinstance(v, Bytes) or (isinstance(v, tuple) and len(v) == 2 and v[0] == "sizeof")

    def size_op(self, ip, op, a, b):
        mk_ = lambda v: v if isinstance(v, Bytes) else Bytes(v[1], ONE)
        if op != "*":
            raise Unsupported("size arithmetic")
        if self.is_size(a):
            s, k = mk_(a), b
        else:
            s, k = mk_(b), a
        return Bytes(s.typ, mul(s.count, lift(k)))

    def scalar_op(self, ip, op, a, b):
        if op == "+":
            return add(b2(a), b2(b))
        if op == "-":
            return sub(b2(a), b2(b))
        if op == "*":
            return mul(b2(a), b2(b))
        if op == "/":
            return div(b2(a), b2(b))
        if op == "//":
            if a.op == "num" and b.op == "num" and b.args[0] != 0:
                return num(a.args[0] // b.args[0])
            if a.sort == "I" and b.op == "num" and b.args[0] > 0 and b.sort == "I":
                return app("fdiv", a, b, sort="I")
            raise Unsupported("floor division by a symbolic number")
        if op == "%":
            if a.op == "num" and b.op == "num" and b.args[0] != 0:
                return num(a.args[0] % b.args[0])
            if a.sort == "I" and b.op == "num" and b.args[0] > 0 and b.sort == "I":
                return sub(a, mul(b, app("fdiv", a, b, sort="I")))
            raise Unsupported("modulo of a symbolic number")
        if op == "**":
            if b.op == "num" and b.args[0].denominator == 1 and 0 <= b.args[0] <= 64:
                if a.op == "num":
                    return num(a.args[0] ** int(b.args[0]))
                return power(a, int(b.args[0]))
            if b.op == "num" and b.args[0] == Fraction(1, 2):
                return app("sqrt", a)
            raise Unsupported("power")
        if op in ("&", "|"):
            if a.sort == "B" and b.sort == "B":
                return and_(a, b) if op == "&" else or_(a, b)
            if a.op == "num" and b.op == "num":
                x, y = int(a.args[0]), int(b.args[0])
                return num(x & y if op == "&" else x | y)
        raise Unsupported("operator " + op)

    def unop(self, ip, op, a):
        if isinstance(a, Arr):
            return self.elementwise(ip, lambda x: self.un_term(op, x), [a], None, op)
        if is_scalar(a):
            if isinstance(a, bool) and op == "-":
                return -int(a)
            return simple(self.un_term(op, lift(a)))
        if self.is_sparse(a) and op == "-":
            import lib_np
            return lib_np.sparse_binop(self, ip, "*", -1, a)
        raise Unsupported("unary " + op)

    def un_term(self, op, x):
        if op == "-":
            return neg(b2(x))
        if op == "+":
            return x
        if op == "~" and x.sort == "B":
            return not_(x)
        raise Unsupported("unary " + op)

    def inplace(self, ip, cur, op, v):
        if isinstance(cur, Arr):
            a = self.elementwise(ip, lambda x, y: self.scalar_op(ip, op, x, y), [cur, v], None, op)
            if a.ndim != cur.ndim:
                raise PyRaise("ValueError")
            g = ip.elem(a)
            ip.fill(cur, lambda *ix: g(*ix))
            return cur
        if isinstance(cur, H) and cur.kind == "list" and op == "+" and isinstance(v, (H, tuple)):
            xs = list(v) if isinstance(v, tuple) else ip.st.heap[v.id]
            ip.st.heap[cur.id] = list(ip.st.heap[cur.id]) + list(xs)
            return cur
        return self.binop(ip, op, cur, v)

    # arrays -------------------------------------------------------
    def as_array(self, ip, v, dt=None):
        if isinstance(v, Arr):
            return v
        if is_scalar(v):
            t = lift(v)
            return ip.array((), lambda: t, t.sort)
        if isinstance(v, tuple):
            xs = list(v)
        elif isinstance(v, H) and v.kind == "list" and isinstance(ip.st.heap[v.id], list):
            xs = ip.st.heap[v.id]
        else:
            raise Unsupported("array of %r" % (v,))
        if all(is_scalar(x) for x in xs):
            ts = [lift(x) for x in xs]
            dt = dt or ("R" if any(t.sort == "R" for t in ts) else "B" if ts and all(t.sort == "B" for t in ts) else "I")

            def f(i):
                r = ZERO if not ts else ts[-1]
                for n in range(len(ts) - 2, -1, -1):
                    r = ite(eq(i, num(n)), ts[n], r)
                return r
            return ip.array((num(len(ts)),), f, dt)
        raise Unsupported("array of nested values")

    def dims_equal(self, ip, a, b):
        if a is b:
            return True
        return decide(ip.hyps(), eq(a, b)) is True

    def broadcast(self, ip, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for d in range(nd):
            cur = ONE
            for s in shapes:
                k = d - (nd - len(s))
                if k < 0:
                    continue
                n = s[k]
                if isnum(n, 1):
                    continue
                if isnum(cur, 1):
                    cur = n
                elif not self.dims_equal(ip, cur, n):
                    if decide(ip.hyps(), ne(cur, n)) is True:
                        raise PyRaise("ValueError")
                    raise Unsupported("broadcast of dimensions %s and %s" % (show(cur), show(n)))
            out.append(cur)
        return tuple(out)

    def elementwise(self, ip, fn, args, dt=None, op=None):
        arrs = [a if isinstance(a, Arr) else self.as_array(ip, a) for a in args]
        shape = self.broadcast(ip, [a.shape for a in arrs])
        els = [ip.elem(a) for a in arrs]
        nd = len(shape)

        def f(*ix):
            xs = []
            for a, e in zip(arrs, els):
                off = nd - a.ndim
                xs.append(e(*[ZERO if isnum(a.shape[k], 1) and not isnum(shape[off + k], 1) else ix[off + k] for k in range(a.ndim)]))
            return fn(*xs)
        if nd == 0:
            return simple(T_(f()))
        if dt is None:
            probe = T_(f(*[tm.fresh("x") for _ in shape]))
            dt = probe.sort
            if op == "/":
                dt = "R"
            elif dt == "I" and any(ip.st.heap[a.cell].dt == "R" for a in arrs):
                dt = "R"
        return ip.array(shape, f, dt)

    def ptr_add(self, ip, p, off):
        """move a pointer into a buffer; for a two-dimensional buffer the offset is split into rows and columns"""
        c = ip.st.heap[p.cell]
        if len(c.shape) == 1:
            return Ptr(p.cell, (add(p.pos[0], off),))
        if len(c.shape) == 2:
            q, r = split_rows(off, c.shape[1])
            return Ptr(p.cell, (add(p.pos[0], q), add(p.pos[1], r)))
        raise Unsupported("pointer into a %d-dimensional buffer" % len(c.shape))

    # ------------------------------------------------------------ length, items
    def len(self, ip, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise("TypeError")
            return simple(v.shape[0])
        if isinstance(v, H) and v.kind in ("list", "dict"):
            r = ip.st.heap[v.id]
            if isinstance(r, (list, dict)):
                return len(r)
            if hasattr(r, "length"):
                return simple(r.length(ip))
        if isinstance(v, RangeV):
            return simple(max_(sub(v.hi, v.lo), ZERO))
        for h in self.attr_hooks:
            r = getattr(h, "len", lambda *x: None)(ip, v)
            if r is not None:
                return r
        raise Unsupported("len of %s" % type(v).__name__)

    def listing(self, ip, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, H) and v.kind == "list" and isinstance(ip.st.heap[v.id], list):
            return list(ip.st.heap[v.id])
        if isinstance(v, H) and v.kind == "dict":
            return list(ip.st.heap[v.id])
        if isinstance(v, RangeV) and lift(v.lo).op == "num" and lift(v.hi).op == "num":
            return [num(k) for k in range(int(lift(v.lo).args[0]), int(lift(v.hi).args[0]), int(lift(v.step).args[0]))]
        if isinstance(v, CompV):
            return self.comp_list(ip, v)
        if isinstance(v, ZipV):
            return [tuple(x) for x in zip(*[self.listing(ip, i) for i in v.its])]
        if isinstance(v, EnumV):
            return [(num(n), x) for n, x in enumerate(self.listing(ip, v.it))]
        if isinstance(v, Arr) and v.ndim >= 1 and v.shape[0].op == "num" and v.shape[0].args[0] <= 16:
            return [self.getitem(ip, v, num(i)) for i in range(int(v.shape[0].args[0]))]
        raise Unsupported("listing of %s" % type(v).__name__)

    def unpack(self, ip, v, n):
        if isinstance(v, CompV):
            xs = self.comp_list(ip, v)
            return xs if len(xs) == n else None
        for h in self.attr_hooks:
            r = getattr(h, "unpack", lambda *x: None)(ip, v, n)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------ attributes
    def is_sparse(self, v):
        return isinstance(v, H) and v.kind == "obj" and isinstance(v.cls, ClsV) and v.cls.mod == "ext" and v.cls.name.endswith(("_matrix", "_array"))

    def getattr(self, ip, o, name):
        for h in self.attr_hooks:
            r = getattr(h, "getattr", lambda *x: None)(ip, o, name)
            if r is not None:
                return r
        if isinstance(o, ModV):
            return self.modattr(ip, o.name, name)
        if isinstance(o, Arr):
            if name == "shape":
                return tuple(simple(s) for s in o.shape)
            if name == "ndim":
                return o.ndim
            if name == "size":
                r = ONE
                for s in o.shape:
                    r = mul(r, s)
                return simple(r)
            if name == "T":
                return self.models["numpy.transpose"](ip, [o], {})
            if name == "dtype":
                return self.arr_dtype(ip, o)
            if name == "data":
                return o
            if name in self.methods:
                return Builtin("ndarray." + name, self.methods[name], o)
            raise Unsupported("ndarray attribute " + name)
        if isinstance(o, H) and o.kind == "obj":
            rec = ip.st.heap[o.id]
            if isinstance(rec, dict):
                if name in rec:
                    v = rec[name]
                    if isinstance(v, Poison):
                        raise Unsupported("use of attribute %s (%s)" % (name, v.why))
                    return v
                if name == "__dict__":
                    return H(o.id, "dict", o.cls)
                if name == "__class__":
                    return o.cls
            if self.is_sparse(o):
                import lib_np
                return lib_np.sparse_attr(self, ip, o, name)
            r = self.class_attr(ip, o.cls, name, o)
            if r is not None:
                return r
            raise PyRaise("AttributeError")
        if isinstance(o, H) and o.kind in ("list", "dict"):
            k = "%s.%s" % (o.kind, name)
            if k in self.models:
                return Builtin(k, self.models[k], o)
            raise Unsupported(k)
        if isinstance(o, ClsV):
            if name == "__name__":
                return o.name
            r = self.class_attr(ip, o, name, None, o)
            if r is not None:
                return r
            raise Unsupported("class attribute %s.%s" % (o.name, name))
        if isinstance(o, SuperV):
            for b in self.bases(ip, o.cls):
                r = self.class_attr(ip, b, name, o.self_)
                if r is not None:
                    return r
            if name == "__init__":
                return Builtin("object.__init__", lambda ip, a, k: None)
            raise PyRaise("AttributeError")
        if isinstance(o, str):
            if name in ("endswith", "startswith", "format", "join", "lower"):
                return Builtin("str." + name, self.models["str." + name], o)
        if isinstance(o, DType):
            if name == "name":
                return ("dtypename", o) if "?" in (o.name or "?") else o.name
            if name in ("type", "base"):
                return o
        if isinstance(o, FuncV):
            if name == "__doc__":
                return Opaque("doc")
            if name == "__name__":
                return o.name
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "dtypename":
            raise Unsupported("dtype name")
        if isinstance(o, Opaque):
            if o.what == "lock" and name in ("acquire", "release"):
                return Builtin("lock." + name, lambda ip, a, k: (ip.acquire if name == "acquire" else ip.release)())
            return Builtin("opaque." + name, lambda ip, a, k: Opaque(o.what + "." + name))
        if isinstance(o, Builtin):
            d = o.name + "." + name
            if d in self.models:
                return Builtin(d, self.models[d])
        if is_scalar(o):
            if name == "item":
                return Builtin("item", lambda ip, a, k: o)
            if name == "astype":
                return Builtin("astype", lambda ip, a, k: o)
            if name == "shape":
                return ()
            if name == "dtype":
                return DType("?")
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def arr_dtype(self, ip, o):
        c = ip.st.heap[o.cell]
        if c.meta and c.meta.get("dtype"):
            return c.meta["dtype"]
        return DType("?%s" % (c.name or "arr"))

    def modattr(self, ip, mod, name):
        if mod == "implicit.gpu" and name == "HAS_CUDA":
            self.trusted.add("assumed: no CUDA device (implicit.gpu.HAS_CUDA is False)")
            return False
        if mod in self.mods:
            t = self.top(mod)
            if name in t:
                return self.resolve(ip, t[name], mod)
            if mod + "." + name in self.mods:
                return ModV(mod + "." + name)
            raise Unsupported("%s.%s" % (mod, name))
        if mod + "." + name in self.mods:
            return ModV(mod + "." + name)
        return self.external(mod + "." + name)

    def bases(self, ip, cls):
        out = []
        for b in cls.bases or ():
            old, fid = ip.push({"__module__": cls.mod, "__closure__": None})
            try:
                v = ip.ev(b)
            except Unsupported:
                continue
            finally:
                ip.st.fid = old
                ip.st.fr.pop(fid, None)
            if isinstance(v, ClsV):
                out.append(v)
        return out

    def subclass(self, ip, c, d):
        if c == d:
            return True
        return any(self.subclass(ip, b, d) for b in self.bases(ip, c))

    def find_in_class(self, ip, cls, name):
        """(definition node, class) following the bases"""
        if cls.node is not None:
            found = None
            for s in cls.node.body:
                if s.k == "Func" and s.name == name:
                    found = s
                elif s.k == "Assign" and len(s.targets) == 1 and s.targets[0].k == "Name" and s.targets[0].id == name:
                    found = s
            if found is not None:
                return found, cls
        for b in self.bases(ip, cls):
            r = self.find_in_class(ip, b, name)
            if r is not None:
                return r
        return None

    def class_attr(self, ip, cls, name, self_, as_cls=None):
        if not isinstance(cls, ClsV):
            return None
        r = self.find_in_class(ip, cls, name)
        if r is None:
            return None
        s, c = r
        if s.k == "Func":
            decs = [d.id if d.k == "Name" else getattr(d, "attr", "") for d in s.decorators]
            if "property" in decs:
                if self_ is None:
                    raise Unsupported("property of a class")
                return self.call(ip, FuncV(s, c.mod, self_, c), [], {})
            if "classmethod" in decs:
                return FuncV(s, c.mod, as_cls or (self_.cls if isinstance(self_, H) else cls), c)
            if "staticmethod" in decs:
                return FuncV(s, c.mod, None, c)
            return FuncV(s, c.mod, self_, c)
        old, fid = ip.push({"__module__": c.mod, "__closure__": None})
        try:
            return ip.ev(s.value)
        finally:
            ip.st.fid = old
            ip.st.fr.pop(fid, None)

    def setattr(self, ip, o, name, v):
        for h in self.attr_hooks:
            if getattr(h, "setattr", lambda *x: None)(ip, o, name, v):
                return
        if isinstance(o, H) and o.kind == "obj":
            rec = ip.st.heap[o.id]
            if isinstance(rec, dict):
                if self.is_sparse(o):
                    import lib_np
                    return lib_np.sparse_setattr(self, ip, o, name, v)
                rec = dict(rec)
                rec[name] = v
                ip.st.heap[o.id] = rec
                return
        if isinstance(o, (FuncV, Opaque)):
            return
        raise Unsupported("attribute assignment to %s.%s" % (type(o).__name__, name))

    # ------------------------------------------------------------ items
    def getitem(self, ip, o, ix):
        for h in self.attr_hooks:
            r = getattr(h, "getitem", lambda *x: None)(ip, o, ix)
            if r is not None:
                return r
        if isinstance(o, (tuple, str)):
            return self.seq_item(ip, o, ix)
        if isinstance(o, H) and o.kind == "list":
            r = ip.st.heap[o.id]
            if isinstance(r, list):
                v = self.seq_item(ip, tuple(r), ix)
                return ip.alloc(list(v), "list") if isinstance(ix, SliceV) else v
            if hasattr(r, "getitem"):
                return r.getitem(ip, o, ix)
        if isinstance(o, H) and o.kind == "dict" and isinstance(ix, (str, int)):
            d = ip.st.heap[o.id]
            if ix not in d:
                raise PyRaise("KeyError")
            return d[ix]
        if isinstance(o, Ptr):
            i = lift(ix)
            c = ip.st.heap[o.cell]
            p = self.ptr_add(ip, o, i) if len(c.shape) <= 2 else Ptr(o.cell, o.pos[:-1] + (add(o.pos[-1], i),))
            ip.bounds(c, p.pos)
            return simple(c.at(p.pos))
        if isinstance(o, Arr):
            import lib_np
            return lib_np.arr_getitem(self, ip, o, ix)
        if self.is_sparse(o):
            import lib_np
            return lib_np.sparse_getitem(self, ip, o, ix)
        raise Unsupported("item of %s" % type(o).__name__)

    def seq_item(self, ip, xs, ix):
        if isinstance(ix, SliceV):
            g = lambda v: None if v is None else self.concrete(v)
            return xs[slice(g(ix.lo), g(ix.hi), g(ix.step))]
        k = self.concrete(ix)
        if not -len(xs) <= k < len(xs):
            raise PyRaise("IndexError")
        return xs[k]

    def concrete(self, v):
        t = lift(v)
        if t.op != "num" or t.args[0].denominator != 1:
            raise Unsupported("symbolic position in a sequence")
        return int(t.args[0])

    def setitem(self, ip, o, ix, v):
        for h in self.attr_hooks:
            if getattr(h, "setitem", lambda *x: None)(ip, o, ix, v):
                return
        if isinstance(o, H) and o.kind == "dict" and isinstance(ix, (str, int)):
            d = dict(ip.st.heap[o.id])
            d[ix] = v
            ip.st.heap[o.id] = d
            return
        if isinstance(o, H) and o.kind == "list" and isinstance(ip.st.heap[o.id], list):
            xs = list(ip.st.heap[o.id])
            xs[self.concrete(ix)] = v
            ip.st.heap[o.id] = xs
            return
        if isinstance(o, Ptr):
            i = lift(ix)
            c = ip.st.heap[o.cell]
            p = self.ptr_add(ip, o, i) if len(c.shape) <= 2 else Ptr(o.cell, o.pos[:-1] + (add(o.pos[-1], i),))
            ip.bounds(c, p.pos)
            ip.store(o.cell, p.pos, lift(v))
            return
        if isinstance(o, Arr):
            import lib_np
            return lib_np.arr_setitem(self, ip, o, ix, v)
        raise Unsupported("item assignment to %s" % type(o).__name__)

    def addr(self, ip, o, ix):
        if isinstance(o, Arr):
            ixs = tuple(lift(x) for x in (ix if isinstance(ix, tuple) else (ix,)))
            if len(ixs) != o.ndim:
                raise Unsupported("address of a row")
            pos = o.index(ixs)
            c = ip.st.heap[o.cell]
            # the address one past the end is allowed (and never read)
            return Ptr(o.cell, pos)
        if isinstance(o, Ptr):
            return self.ptr_add(ip, o, lift(ix))
        for h in self.attr_hooks:
            r = getattr(h, "addr", lambda *x: None)(ip, o, ix)
            if r is not None:
                return r
        raise Unsupported("address of an item of %s" % type(o).__name__)

    def new_type(self, ip, t):
        for h in self.attr_hooks:
            r = getattr(h, "new_type", lambda *x: None)(ip, t)
            if r is not None:
                return r
        raise Unsupported("new " + t)

    # ------------------------------------------------------------ with
    def enter(self, ip, e):
        if e.k == "Name" and e.id in ("nogil", "gil"):
            return None
        if e.k == "Call" and e.func.k == "Name" and e.func.id == "parallel":
            return None
        v = ip.ev(e)
        if isinstance(v, H) and v.kind == "obj" and isinstance(v.cls, ClsV) and v.cls.node is not None:
            r = self.class_attr(ip, v.cls, "__enter__", v)
            if r is not None:
                raise Unsupported("context manager of the package")
        return v

    # ------------------------------------------------------------ iteration
    def iterate(self, ip, s):
        it = ip.ev(s.iter)
        body = s.body

        def run(v):
            ip.assign(s.target, v)
            ip.block(body)
        self.for_each(ip, it, run, s)

    def for_each(self, ip, it, run, s=None):
        if isinstance(it, (tuple, list)) or (isinstance(it, H) and it.kind in ("list", "dict") and isinstance(ip.st.heap[it.id], (list, dict))):
            for v in self.listing(ip, it):
                try:
                    run(v)
                except Cont:
                    continue
                except Brk:
                    return
            return
        if isinstance(it, CompV):
            return self.for_each(ip, tuple(self.comp_list(ip, it)), run, s)
        if isinstance(it, RangeV):
            lo, hi = lift(it.lo), lift(it.hi)
            st = lift(it.step)
            if lo.op == "num" and hi.op == "num" and st.op == "num" and not it.parallel and abs(hi.args[0] - lo.args[0]) <= 8 * abs(st.args[0]):
                return self.for_each(ip, tuple(num(k) for k in range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))), run, s)
            if isnum(st, 1) and sub(hi, lo) is ONE:
                return self.for_each(ip, (lo,), run, s)
            if isnum(st, -1):
                n = max_(sub(lo, hi), ZERO) if decide(ip.hyps(), le(hi, lo)) is not True else sub(lo, hi)
                k = ip.new("i")
                return ip.loop(k, ZERO, n, lambda: run(sub(lo, k)), it.parallel, node=s)
            if st.op == "num" and st.args[0] > 1 and st.sort == "I":
                # ceil((hi-lo)/st) iterations
                n = app("fdiv", add(sub(hi, lo), sub(st, ONE)), st, sort="I")
                n = self.named(ip, max_(n, ZERO) if decide(ip.hyps(), le(lo, hi)) is not True else n)
                k = ip.new("i")
                return ip.loop(k, ZERO, n, lambda: run(add(lo, mul(st, k))), it.parallel, node=s)
            if not isnum(st, 1):
                raise Unsupported("range with a step")
            i = ip.new("i")
            return ip.loop(i, lo, hi, lambda: run(i), it.parallel, node=s)
        n, at = self.sequence(ip, it)
        if n is not None:
            i = ip.new("i")
            return ip.loop(i, ZERO, n, lambda: run(at(i)), False, node=s)
        if isinstance(it, GenV):
            return self.run_generator(ip, it, run)
        for h in self.attr_hooks:
            r = getattr(h, "for_each", lambda *x: None)(ip, it, run)
            if r:
                return
        raise Unsupported("iteration over %s" % type(it).__name__)

    def named(self, ip, t):
        """a symbol for a term that would be split on everywhere"""
        if t.op in ("num", "var"):
            return t
        x = ip.new("n")
        ip.assume(eq(x, t))
        return x

    def sequence(self, ip, it):
        """(length, element function) of an indexable iterable, or (None, None)"""
        if isinstance(it, RangeV) and isnum(lift(it.step), 1):
            lo, hi = lift(it.lo), lift(it.hi)
            n = sub(hi, lo)
            if decide(ip.hyps(), le(ZERO, n)) is not True:
                n = max_(n, ZERO)
            return n, lambda i: add(lo, i)
        if isinstance(it, Arr):
            return it.shape[0], lambda i: self.getitem(ip, it, i)
        if isinstance(it, EnumV):
            n, at = self.sequence(ip, it.it)
            if n is None:
                return None, None
            return n, lambda i: (add(it.start, i), at(i))
        if isinstance(it, ZipV):
            qs = [self.sequence(ip, x) for x in it.its]
            if any(q[0] is None for q in qs):
                return None, None
            n = qs[0][0]
            for q in qs[1:]:
                if not self.dims_equal(ip, n, q[0]):
                    n = min_(n, q[0])
            return n, lambda i: tuple(q[1](i) for q in qs)
        if isinstance(it, GenV):
            return self.generator_sequence(ip, it)
        if isinstance(it, H) and it.kind == "list" and hasattr(ip.st.heap[it.id], "sequence"):
            return ip.st.heap[it.id].sequence(ip)
        for h in self.attr_hooks:
            r = getattr(h, "sequence", lambda *x: None)(ip, it)
            if r is not None:
                return r
        return None, None

    def generator_sequence(self, ip, it):
        return None, None

    def run_generator(self, ip, it, run):
        """inline a generator: its body runs with the loop body in place of yield"""
        caller = ip.st.fid
        f = it.f
        brk = [0]
        for y in walk(f.node.body):
            if isinstance(y, N) and y.k == "Yield":
                brk[0] += 1
        old_hook = ip.yield_hook
        simple_gen = len(f.node.body) == 1 and f.node.body[0].k == "For" and brk[0] == 1

        def hook(v):
            g = ip.st.fid
            ip.st.fid = caller
            prev, ip.yield_hook = ip.yield_hook, old_hook
            try:
                try:
                    run(v)
                except Cont:
                    pass
                except Brk:
                    if not simple_gen:
                        raise Unsupported("break out of a generator")
                    ip.st.fid = g
                    raise
                except Ret:
                    raise Unsupported("return from a loop over a generator")
            finally:
                ip.yield_hook = prev
            ip.st.fid = g
        ip.yield_hook = hook
        try:
            self.inlined.add(qual(f))
            ip.run_function(f, it.args, it.kw)
        finally:
            ip.yield_hook = old_hook
        ip.st.fid = caller

    def comp_list(self, ip, c):
        out = []
        node = c.node
        cur = ip.st.fid

        def gen(k):
            if k == len(node.gens):
                if node.kind == "dict":
                    out.append((ip.ev(node.elt.elts[0]), ip.ev(node.elt.elts[1])))
                else:
                    out.append(ip.ev(node.elt))
                return
            g = node.gens[k]
            for v in self.listing(ip, ip.ev(g.iter)):
                ip.assign(g.target, v)
                ok = True
                for cond in g.ifs:
                    r = ip.cond(cond)
                    if isinstance(r, T):
                        d = ip.truth(r)
                        if d is None:
                            raise Unsupported("symbolic comprehension filter")
                        r = d
                    if not r:
                        ok = False
                        break
                if ok:
                    gen(k + 1)
        env = {"__module__": ip.st.fr[c.fid].get("__module__"), "__closure__": c.fid, "__class__": ip.st.fr[c.fid].get("__class__")}
        old, fid = ip.push(env)
        try:
            gen(0)
        finally:
            ip.st.fid = old
            ip.st.fr.pop(fid, None)
        return out

    def comprehension(self, ip, e):
        c = CompV(e, ip.st.fid)
        if e.kind == "gen":
            return c
        for h in self.attr_hooks:
            r = getattr(h, "comprehension", lambda *x: None)(ip, e)
            if r is not None:
                return r
        xs = self.comp_list(ip, c)
        if e.kind == "dict":
            d = {}
            for k, v in xs:
                if not isinstance(k, (str, int)):
                    raise Unsupported("symbolic dictionary key")
                d[k] = v
            return ip.alloc(d, "dict")
        return ip.alloc(xs, "list")

    # ------------------------------------------------------------ calls
    def call_expr(self, ip, e):
        if e.func.k == "Name" and e.func.id == "super":
            a = [ip.ev(x) for x in e.args]
            cls = a[0] if a else ip.env.get("__class__")
            fn_self = a[1] if len(a) > 1 else None
            if fn_self is None:
                fn_self = ip.env.get("self")
            return SuperV(cls, fn_self)
        if e.func.k == "Name" and e.func.id == "locals":
            raise Unsupported("locals()")
        f = ip.ev(e.func)
        args, kw = ip.args_of(e)
        ip.cur_call = e
        return self.call(ip, f, args, kw)

    def thread_id(self, ip):
        raise Unsupported("threadid")

    def call(self, ip, f, args, kw):
        if isinstance(f, Partial):
            return self.call(ip, f.f, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Builtin):
            self.trusted.add(f.name)
            a = ([f.self_] if f.self_ is not None else []) + list(args)
            return f.fn(ip, a, kw)
        if isinstance(f, FuncV):
            q = qual(f)
            for key in (q, f.name):
                if key in self.summaries:
                    self.used.add(key)
                    return self.summaries[key](ip, f, args, kw)
            if getattr(f.node, "gen", False):
                return GenV(f, args, kw)
            if len(ip.calls) > 30:
                raise Unsupported("recursion")
            self.inlined.add(q)
            return ip.run_function(f, args, kw)
        if isinstance(f, ClsV):
            return self.construct(ip, f, args, kw)
        if isinstance(f, DType):
            if args and is_scalar(args[0]):
                return args[0]
            return f
        if isinstance(f, Opaque):
            return Opaque(f.what + "()")
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "ctype":
            return args[0]
        for h in self.attr_hooks:
            r = getattr(h, "call", lambda *x: None)(ip, f, args, kw)
            if r is not None:
                return r
        if isinstance(f, ModV):
            raise Unsupported("call of %s, which has no model" % f.name)
        raise Unsupported("call of %s" % type(f).__name__)

    def construct(self, ip, cls, args, kw):
        key = "class:" + cls.name
        if key in self.summaries:
            self.used.add(key)
            return self.summaries[key](ip, cls, args, kw)
        if cls.node is None:
            k = "class." + cls.name
            if k in self.models:
                self.trusted.add(k)
                return self.models[k](ip, args, kw)
            if cls.name in self.EXC:
                return Opaque("exception")
            raise Unsupported("construction of " + cls.name)
        o = ip.alloc({}, "obj", cls)
        for nm in ("__cinit__", "__init__"):
            r = self.find_in_class(ip, cls, nm)
            if r is not None:
                self.call(ip, FuncV(r[0], r[1].mod, o, r[1]), args, kw)
        return o


# ---------------------------------------------------------------- helpers
def qual(f):
    return "%s:%s%s" % (f.mod, (f.cls.name + ".") if f.cls is not None else "", f.name)


def simple(t):
    if isinstance(t, T) and t.op == "num":
        q = t.args[0]
        return int(q) if q.denominator == 1 else q
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t


def b2(t):
    return ite(t, ONE, ZERO) if t.sort == "B" else t


def split_rows(off, cols):
    """off == q*cols + r"""
    if isnum(off, 0):
        return ZERO, ZERO
    if cols.op == "num":
        if off.op == "num":
            q, r = divmod(off.args[0], cols.args[0])
            return num(q), num(r)
    q, r = {}, {}
    for m, c in to_poly(off).items():
        hit = None
        for k, (x, e) in enumerate(m):
            if x is cols:
                hit = k
        if hit is None:
            r[m] = c
        else:
            mm = tuple((x, e - 1 if k == hit else e) for k, (x, e) in enumerate(m) if not (k == hit and e == 1))
            q[mm] = q.get(mm, 0) + c
    return from_poly(q), from_poly(r)


def dtype_of(x):
    if isinstance(x, DType):
        return x
    if isinstance(x, str):
        n = {"f4": "float32", "float32": "float32", "float64": "float64", "f8": "float64", "int32": "int32", "long": "int64", "int64": "int64"}.get(x)
        return DType(n) if n else None
    if isinstance(x, ClsV):
        return None
    if isinstance(x, Builtin) and x.name in ("builtins.float", "builtins.int", "builtins.bool"):
        return DType({"float": "float64", "int": "int64", "bool": "bool"}[x.name.split(".")[1]])
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "dtypename":
        return x[1]
    return None


def dt_sort(d, default="R"):
    d = dtype_of(d)
    if d is None or d.name is None:
        return default
    if d.name.startswith("int") or d.name.startswith("uint"):
        return "I"
    if d.name == "bool":
        return "B"
    if d.name.startswith("float"):
        return "R"
    return default


def canon(d):
    if d.startswith("np."):
        d = "numpy." + d[3:]
    return d


DTYPES = {"numpy.float32": "float32", "numpy.float64": "float64", "numpy.int32": "int32", "numpy.int64": "int64", "numpy.bool_": "bool",
          "numpy.float16": "float16", "numpy.intc": "int32", "numpy.int_": "int64"}
CLASSES = {}
for _n in ("csr_matrix", "coo_matrix", "csc_matrix", "lil_matrix", "csr_array", "coo_array", "spmatrix"):
    CLASSES["scipy.sparse." + _n] = _n
CLASSES["numpy.ndarray"] = "ndarray"
CLASSES["numpy.random.RandomState"] = "RandomState"
CLASSES["numpy.random.Generator"] = "Generator"
CONSTS = {"numpy.newaxis": None, "numpy.random": ModV("numpy.random"), "numpy.linalg": ModV("numpy.linalg")}
CONSTS["numpy.pi"] = app("const:pi", sort="R")
