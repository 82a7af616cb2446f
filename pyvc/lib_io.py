"""Models of numpy.savez / numpy.load (trusted): an .npz file is a mapping of names to array values."""
import terms as tm
from terms import *  # noqa
from interp import Arr, H, Unsupported, PyRaise, lift, is_scalar, Builtin, DType, ClsV
import lib_np


class ZeroD:
    """a zero dimensional array"""
    def __init__(self, val):
        self.val = val

    def __eq__(self, o):
        return isinstance(o, ZeroD) and o.val == self.val

    def __hash__(self):
        return hash(("zerod", str(self.val)))


class Pickled:
    """an object array: np.load refuses it without allow_pickle"""


def freeze(ip, v):
    if isinstance(v, Arr):
        return lib_np.copy_arr(ip, v)
    if isinstance(v, str) or is_scalar(v):
        return ZeroD(v)
    if isinstance(v, tuple) and all(is_scalar(x) for x in v):
        ts = [lift(x) for x in v]

        def at(i):
            e = ts[-1]
            for k in range(len(ts) - 2, -1, -1):
                e = ite(eq(i, num(k)), ts[k], e)
            return e
        return ip.array((num(len(ts)),), at, ts[0].sort)
    if v is None or isinstance(v, H) or isinstance(v, DType):
        return Pickled()
    raise Unsupported("numpy.savez of %s" % type(v).__name__)


FS = "files"


def fs(ip):
    for i, r in ip.st.heap.items():
        if isinstance(r, dict) and r.get("__fs__"):
            return i
    return ip.alloc({"__fs__": True}, "dict").id


def key_of(f):
    return f if isinstance(f, str) else ("file", f.id)


def savez(ip, a, kw):
    f = a[0]
    if isinstance(f, str) and not f.endswith(".npz"):
        f = f + ".npz"
    if len(a) > 1:
        raise Unsupported("positional arrays in savez")
    content = {k: freeze(ip, v) for k, v in kw.items()}
    i = fs(ip)
    d = dict(ip.st.heap[i])
    d[key_of(f)] = content
    ip.st.heap[i] = d
    return None


def load(ip, a, kw):
    d = ip.st.heap[fs(ip)]
    k = key_of(a[0])
    if k not in d:
        raise PyRaise("FileNotFoundError")
    pick = kw.get("allow_pickle", False)
    out = {}
    for n, v in d[k].items():
        if isinstance(v, Pickled):
            if pick is not True:
                raise PyRaise("ValueError")
            raise Unsupported("pickled value in an npz file")
        out[n] = lib_np.copy_arr(ip, v) if isinstance(v, Arr) else v
    return ip.alloc(out, "dict")


class Hook:
    def getattr(self, ip, o, name):
        if isinstance(o, ZeroD):
            if name == "shape":
                return ()
            if name == "ndim":
                return 0
            if name == "size":
                return 1
            if name in ("item", "tolist"):
                return Builtin("item", lambda ip, a, k: o.val)
            if name == "dtype":
                return DType("?0d")
            raise Unsupported("attribute %s of a 0-d array" % name)
        return None


def csr_from(ip, a, kw):
    """csr_matrix((data, indices, indptr), shape=...)"""
    x = a[0]
    w = ip.w
    if isinstance(x, tuple) and len(x) == 3:
        sh = kw.get("shape", a[1] if len(a) > 1 else None)
        if sh is None:
            raise Unsupported("csr_matrix without a shape")
        if isinstance(sh, Arr):
            e = ip.elem(sh)
            sh = (e(ZERO), e(ONE))
        data, ind, ptr = x
        rec = {"indptr": ptr, "indices": ind, "data": data, "_shape": tuple(lift(v) for v in sh), "_dtype": w.arr_dtype(ip, data),
               "_nnz": lift(data.shape[0]), "_tok": "csr%d" % ip.ctr}
        return ip.alloc(rec, "obj", ClsV("csr_matrix", None, "ext"))
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and len(x[1]) == 2:
        # csr_matrix((data, (row, col)), shape=...): entries at the same place would be summed, which the model does not do
        coo = lib_np.coo_matrix(ip, [x], {k: v for k, v in kw.items() if k in ("shape", "dtype")})
        rec = ip.st.heap[coo.id]
        er, ec, n = ip.elem(rec["row"]), ip.elem(rec["col"]), rec["_nnz"]
        s, t = tm.fresh("s"), tm.fresh("t")
        where = ip.where() + " csr_matrix: "
        ip.oblige(where + "as many rows and columns as values", and_(eq(lift(rec["row"].shape[0]), n), eq(lift(rec["col"].shape[0]), n)))
        ip.oblige(where + "entries lie inside the shape", forall([s], implies(and_(le(ZERO, s), lt(s, n)), and_(le(ZERO, er(s)), lt(er(s), rec["_shape"][0]), le(ZERO, ec(s)), lt(ec(s), rec["_shape"][1])))))
        ip.oblige(where + "no two entries at the same place", forall([s, t], implies(and_(le(ZERO, s), lt(s, t), lt(t, n)), or_(ne(er(s), er(t)), ne(ec(s), ec(t))))))
        return lib_np.sparse_tocsr(ip, [coo], {})
    if w.is_sparse(x):
        if x.cls.name.startswith("csr"):
            return lib_np.sparse_copy(ip, x) if kw.get("copy") else ip.alloc(dict(ip.st.heap[x.id]), "obj", ClsV("csr_matrix", None, "ext"))
        return lib_np.sparse_tocsr(ip, [x], {})
    raise Unsupported("csr_matrix of %s" % type(x).__name__)


def install(w):
    w.models["numpy.savez"] = savez
    w.models["numpy.load"] = load
    w.models["class.csr_matrix"] = csr_from
    old = w.models["class.str"]
    w.models["class.str"] = lambda ip, a, kw: a[0].val if isinstance(a[0], ZeroD) and isinstance(a[0].val, str) else old(ip, a, kw)
    w.models["builtins.str"] = w.models["class.str"]
    w.attr_hooks.append(Hook())
