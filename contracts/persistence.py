"""Contracts of save / load and of pickling (C10)."""
from contract import *  # noqa
import settings as S
from settings import same

CACHES = {"_YtY", "_XtX", "_user_norms", "_item_norms", "fit_callback"}


def same_value(c, what, a, b, vals):
    """two attribute values are equal"""
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.ndim != b.ndim:
            c.check(what, False, "not an array any more" if isinstance(a, Arr) else "not None any more")
            return
        for i in range(a.ndim):
            c.equal(what + ": extent %d" % i, lift(a.shape[i]), lift(b.shape[i]))
        ix = [c.index(n) for n in a.shape]
        c.equal(what, c.elem(b, *ix), c.elem(a, *ix))
        da, db = c.w.arr_dtype(c.ip, a), c.w.arr_dtype(c.ip, b)
        if "?" not in (da.name or "?") and "?" not in (db.name or "?"):
            c.check(what + ": type of the elements", da == db, "%r instead of %r" % (db, da))
        return
    if c.w.is_sparse(a) and c.w.is_sparse(b):
        ra, rb = c.ip.st.heap[a.id], c.ip.st.heap[b.id]
        c.check(what + ": format", a.cls.name == b.cls.name, b.cls.name)
        for i in (0, 1):
            c.equal(what + ": shape", lift(rb["_shape"][i]), lift(ra["_shape"][i]))
        for k in ("data", "indices", "indptr"):
            same_value(c, what + "." + k, ra[k], rb[k], vals)
        return
    if c.w.is_sparse(a) or c.w.is_sparse(b):
        c.check(what, False, "%r instead of %r" % (b, a))
        return
    import lib_io
    if isinstance(b, lib_io.ZeroD):
        c.check(what, False, "a 0-d array instead of a plain value")
        return
    if I.is_scalar(a) and I.is_scalar(b):
        ta, tb = lift(a), lift(b)
        c.check(what + ": type", ta.sort == tb.sort, "%s instead of %s" % (tb.sort, ta.sort))
    same(c, what, b, a)


def build(c, target, params, fitted, rs):
    vals = {}
    for k, d in params:
        vals[k] = S.value(c, k, d)
    if "random_state" in vals and rs is None:
        vals["random_state"] = None
    mod, cls = target.split(":")
    c.w.summaries["implicit.utils:check_blas_config"] = lambda ip, f, a, k: None
    c.w.summaries["class:NearestNeighboursScorer"] = lambda ip, k, a, kw: ip.alloc({"of": a[0]}, "obj", ClsX)
    outs = c.call(target, [], vals)
    if len(outs) != 1 or outs[0].sig == "raise":
        raise Unsupported("constructor has %d outcomes" % len(outs))
    m = c.at(outs[0])
    if fitted:
        if "nearest" in mod:
            n = c.dim("items")
            sim = c.csr("S", n, n, dtype=I.DType("float64"))
            c.w.setattr(c.ip, m, "similarity", sim)
            c.w.setattr(c.ip, m, "scorer", c.ip.alloc({"of": sim}, "obj", ClsX))
        else:
            u, i, f = c.dim("users"), c.dim("items"), c.dim("rank", 1)
            c.w.setattr(c.ip, m, "user_factors", c.array("X", (u, f), dtype="float64"))
            c.w.setattr(c.ip, m, "item_factors", c.array("Y", (i, f), dtype="float64"))
    if "als" in mod:
        c.w.setattr(c.ip, m, "cg_steps", c.integer("cg_steps"))
    return m


ClsX = I.ClsV("NearestNeighboursScorer", None, "stub")


def compare(c, label, m, m2):
    a, b = c.ip.st.heap[m.id], c.ip.st.heap[m2.id]
    c.check(label + ": class", m.cls == m2.cls, str(m2.cls))
    for k, v in a.items():
        if k in CACHES:
            continue
        if k == "scorer":
            w = b.get(k)
            c.check(label + ": scorer", (v is None) == (w is None), "the scorer is missing" if w is None else "a scorer appeared")
            if v is not None and w is not None:
                of = c.ip.st.heap[w.id]["of"]
                same_value(c, label + ": similarity used by the scorer", c.ip.st.heap[v.id]["of"], of, None)
            continue
        if k not in b:
            c.check("%s: %s" % (label, k), v is None, "the attribute is missing")
            continue
        same_value(c, "%s: %s" % (label, k), v, b[k], None)


TARGETS = [t[:2] for t in S.TARGETS[:7]]


def make(target, params, fitted, rs):
    name = target.split(":")[1] + (", fitted" if fitted else ", not fitted") + (", seeded" if rs else "")

    @contract(["C10"], "save and load: " + name, [target + ".save", target + ".load"])
    def run(c):
        m = build(c, target, params, fitted, rs)
        st = c.ip.st
        for how, path, back in (("path", "model", "model"), ("path with suffix", "model.npz", "model.npz"),
                                ("suffix only when loading", "model", "model.npz"), ("file object", None, None)):
            c.ip.st = st.copy()
            if path is None:
                path = back = c.ip.alloc({}, "obj", I.ClsV("BytesIO", None, "stub"))
            outs = c.method(m, "save", [path])
            for o in outs:
                c.at(o)
                if o.sig == "raise":
                    c.fail("%s: save never raises" % how, o.val.typ)
                    continue
                compare_frame(c, how, st, m)
                for o2 in c.explore(lambda: c.w.call(c.ip, c.w.getattr(c.ip, m.cls, "load"), [back], {})):
                    m2 = c.at(o2)
                    if o2.sig == "raise":
                        c.fail("%s: load never raises" % how, o2.val.typ)
                        continue
                    compare(c, how, m, m2)

    if not rs or "nearest" in target:
        @contract(["C10"], "pickle: " + name, [target + ".__getstate__", target + ".__setstate__"])
        def run2(c):
            m = build(c, target, params, fitted, True)
            has = {k: c.w.find_in_class(c.ip, m.cls, k) for k in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__")}
            if has["__reduce__"] or has["__reduce_ex__"] or has["__getnewargs__"]:
                raise Unsupported("a custom pickling protocol")
            st0 = c.ip.st

            def thunk():
                if has["__getstate__"]:
                    state = c.w.call(c.ip, c.w.getattr(c.ip, m, "__getstate__"), [], {})
                else:
                    state = c.ip.alloc(dict(c.ip.st.heap[m.id]), "dict")
                new = c.ip.alloc({}, "obj", m.cls)
                if has["__setstate__"]:
                    c.w.call(c.ip, c.w.getattr(c.ip, new, "__setstate__"), [state], {})
                else:
                    c.ip.st.heap[new.id] = dict(c.ip.st.heap[state.id])
                return new
            for o in c.explore(thunk):
                m2 = c.at(o)
                if o.sig == "raise":
                    c.fail("pickling never raises", o.val.typ)
                    continue
                compare(c, "pickle", m, m2)


def compare_frame(c, how, st, m):
    """save leaves the model as it was"""
    a, b = st.heap[m.id], c.ip.st.heap[m.id]
    c.check(how + ": save leaves the model's attributes alone", set(a) == set(b) and all(a[k] is b[k] or a[k] == b[k] or (isinstance(a[k], Arr) and isinstance(b[k], Arr) and a[k].same(b[k])) for k in a),
            "an attribute changed")


for t, p in TARGETS:
    for fitted in (True, False):
        for rs in (True, None):
            if rs is None and "nearest" in t:
                continue
            make(t, p, fitted, rs)
