"""Models of numpy's random generators (trusted): every draw is a function of the seed, the number of draws before it and
the arguments.  Draws from the global state are symbols whose name starts with GLOBAL, so that a contract can require
that none of them reaches a result."""
from terms import *  # noqa
import terms as tm
from interp import Arr, H, Unsupported, PyRaise, lift, is_scalar, Builtin, DType, ClsV, ModV
import lib_np
from lib_np import kwget, dims
import world as _w


def dtype_of(x):
    return _w.dtype_of(x)


GLOBAL = "globalrandom"


def new_gen(ip, seed, cls="Generator"):
    return ip.alloc({"_seed": lift(seed), "_n": ZERO}, "obj", ClsV(cls, None, "ext"))


def default_rng(ip, a, kw):
    s = kwget(a, kw, 0, "seed", None)
    if s is None:
        return new_gen(ip, var(ip.nm("entropy")))
    if isinstance(s, H) and s.cls is not None and s.cls.name == "Generator":
        return s
    if isinstance(s, H) and s.cls is not None and s.cls.name == "RandomState":
        raise PyRaise("TypeError")
    if is_scalar(s):
        if ip.truth(le(ZERO, lift(s))) is not True:
            if ip.choose(2) == 0:
                ip.path(le(ZERO, lift(s)))
            else:
                ip.path(lt(lift(s), ZERO))
                raise PyRaise("ValueError")
        return new_gen(ip, s)
    raise Unsupported("seed of type %s" % type(s).__name__)


def random_state(ip, a, kw):
    s = kwget(a, kw, 0, "seed", None)
    return new_gen(ip, var(ip.nm("entropy")) if s is None else s, "RandomState")


def tick(ip, o):
    """(seed, index of the draw) ; the generator moves on"""
    if isinstance(o, ModV) or o is None:
        return app(GLOBAL, sort="I"), var(ip.nm("at"))
    rec = ip.st.heap[o.id]
    n = rec["_n"]
    ip.st.heap[o.id] = {**rec, "_n": add(n, ONE)}
    return rec["_seed"], n


def shape_of(ip, v):
    if v is None:
        return None
    return dims(ip, v)


def draw(ip, o, kind, size, sort, params=(), lo=None, hi=None, strict=True, dtype=None):
    seed, n = tick(ip, o)
    cls = o.cls.name if isinstance(o, H) else "global"
    f = "draw_%s_%s" % (cls, kind)
    shp = shape_of(ip, size)
    mkt = lambda *ix: app(f, seed, n, *params, *ix, sort=sort)

    def fact(vs):
        t = mkt(*vs)
        cs = []
        if lo is not None:
            cs.append(le(lo, t))
        if hi is not None:
            cs.append(lt(t, hi))
        return and_(*cs)
    if shp is None:
        ip.assume(fact(()))
        return mkt()
    vs = [tm.fresh("d") for _ in shp]
    inr = and_(*[and_(le(ZERO, v), lt(v, s)) for v, s in zip(vs, shp)])
    ip.assume(forall(vs, implies(inr, fact(vs))))
    return ip.array(shp, mkt, sort, kind, meta={"dtype": dtype} if dtype is not None else None)


def g_random(ip, a, kw):
    d = dtype_of(kwget(a, kw, 2, "dtype", None)) or DType("float64")
    return draw(ip, a[0], "random" + ("32" if d.name == "float32" else ""), kwget(a, kw, 1, "size", None), "R", (), ZERO, ONE, dtype=d)


def g_integers(ip, a, kw):
    lo, hi = kwget(a, kw, 1, "low"), kwget(a, kw, 2, "high", None)
    if hi is None:
        lo, hi = ZERO, lo
    lo, hi = lift(lo), lift(hi)
    if ip.truth(lt(lo, hi)) is not True:
        if ip.choose(2) == 0:
            ip.path(lt(lo, hi))
        else:
            ip.path(le(hi, lo))
            raise PyRaise("ValueError")
    return draw(ip, a[0], "integers", kwget(a, kw, 3, "size", None), "I", (lo, hi), lo, hi)


def g_choice(ip, a, kw):
    n, size = a[1], kwget(a, kw, 2, "size", None)
    repl = kw.get("replace", a[3] if len(a) > 3 else True)
    if not is_scalar(n) or size is None or repl is not False:
        raise Unsupported("choice")
    n, size = lift(n), lift(size)
    if ip.truth(le(size, n)) is not True:
        if ip.choose(2) == 0:
            ip.path(le(size, n))
        else:
            ip.path(lt(n, size))
            raise PyRaise("ValueError")
    v = draw(ip, a[0], "choice", size, "I", (n, size), ZERO, n)
    e = ip.elem(v)
    x, y = tm.fresh("x"), tm.fresh("y")
    ip.assume(forall([x, y], implies(and_(le(ZERO, x), lt(x, y), lt(y, size)), ne(e(x), e(y)))))
    return v


def g_permutation(ip, a, kw):
    raise Unsupported("permutation")


GEN = {"random": g_random, "integers": g_integers, "choice": g_choice, "random_sample": g_random, "rand": None, "randint": g_integers,
       "permutation": g_permutation}


class Hook:
    def getattr(self, ip, o, name):
        if isinstance(o, H) and o.cls is not None and o.cls.mod == "ext" and o.cls.name in ("Generator", "RandomState"):
            if GEN.get(name):
                return Builtin("numpy.random.%s.%s" % (o.cls.name, name), GEN[name], o)
            raise Unsupported("numpy.random.%s.%s" % (o.cls.name, name))


def install(w):
    m = w.models
    m["numpy.random.default_rng"] = default_rng
    m["class.RandomState"] = random_state
    m["class.Generator"] = lambda ip, a, kw: new_gen(ip, var(ip.nm("bitgen")))
    for k, f in GEN.items():
        if f:
            m["numpy.random." + k] = lambda ip, a, kw, f=f: f(ip, [ModV("numpy.random")] + list(a), kw)
    m["numpy.random.rand"] = lambda ip, a, kw: g_random(ip, [ModV("numpy.random"), tuple(a) if a else None], {})
    m["numpy.random.seed"] = lambda ip, a, kw: ip.w.globals_touched.append("numpy.random.seed")
    w.globals_touched = []
    w.attr_hooks.append(Hook())
