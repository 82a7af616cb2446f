"""Contract of _batch_call (implicit/utils.py): row i of a batch is the answer for the i-th id with the i-th row of interactions (C04, C12, C21, C20).
The scalar query is an arbitrary function of its id and its row of interactions, with answers of any length."""
from contract import *  # noqa
from als_fit import csr_content

MOD = "implicit.utils"
F32 = var("FMAX", "R")


def batch(rowsarg):
    label = "_batch_call" + (" (%s)" % rowsarg if rowsarg else "")

    @contract(["C04", "C20", "C21"], label, [MOD + ":_batch_call"])
    def run(c):
        q, N = c.dim("q"), c.integer("N", 1)
        ids = c.array("ids", (q,), "I")
        flag = c.integer("flag")
        kw = {"N": N, "flag": flag}
        U = None
        if rowsarg:
            U = kw[rowsarg] = c.csr("U", c.dim("rows", like=q), c.dim("cols"))
            c.given(eq(c.ip.st.heap[U.id]["_shape"][0], q))
        other = c.integer("other")

        def scalar(ip, a, k):
            if len(a) != 2 or set(k) != {"N", "flag"} | ({rowsarg} if rowsarg else set()):
                raise Unsupported("arguments of the scalar query")
            ip.oblige("the scalar query gets the same N", eq(lift(k["N"]), N))
            ip.oblige("the scalar query gets the other arguments", and_(eq(lift(k["flag"]), flag), eq(lift(a[1]), other)))
            args = [lift(a[0])] + (csr_content(ip, k[rowsarg]) if rowsarg else [])
            L = app("answer_len", *args, sort="I")
            ip.assume(le(ZERO, L))
            return (ip.array((L,), lambda j: app("answer_id", *args, j, sort="I"), "I"), ip.array((L,), lambda j: app("answer_score", *args, j), "R"))
        f = I.Builtin("scalar query", scalar)
        for o in c.call(MOD + ":_batch_call", [f, ids, other], kw):
            v = c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            a, s = v
            for x in (a, s):
                c.equal("one row per id", lift(x.shape[0]), q)
                c.equal("N columns", lift(x.shape[1]), N)
            r, j = c.index(q, N)
            args = [app("ids", r, sort="I")]
            if rowsarg:
                args += csr_content(c.ip, lib_np.sparse_row(c.ip, U, r))
            L = app("answer_len", *args, sort="I")
            st = c.ip.st.copy()
            c.assume(lt(j, L))
            c.equal("row i holds the ids of the answer for the i-th id", c.elem(a, r, j), app("answer_id", *args, j, sort="I"))
            c.equal("row i holds the scores of the answer for the i-th id", c.elem(s, r, j), app("answer_score", *args, j))
            c.ip.st = st
            c.assume(le(L, j))
            c.equal("a shorter answer is padded with id -1", c.elem(a, r, j), num(-1))
            c.equal("a shorter answer is padded with the lowest score", c.elem(s, r, j), neg(F32))
            k = c.index(q)
            c.equal("the ids passed in are unchanged", c.elem(ids, k), app("ids", k, sort="I"))


for r in (None, "user_items", "item_users"):
    batch(r)


def forwards(method, args, rows):
    """the batch form of an item-item query hands every argument to _batch_call unchanged"""
    from knn_query import item_item, CLS

    @contract(["C04", "C12", "C20"], "ItemItemRecommender.%s (batch, %s)" % (method, args[-1]), [CLS + "." + method])
    def run(c):
        n, q = c.dim("items", 1), c.dim("q")
        m = item_item(c)
        c.w.setattr(c.ip, m, "similarity", c.csr("S", n, n, dtype="float64"))
        ids = c.array("ids", (q,), "I")
        kw = {}
        for k in args:
            kw[k] = c.integer(k, 1) if k == "N" else c.array(k, (c.dim("n_" + k),), "I") if "items" in k and "liked" not in k else c.boolean(k)
        U = None
        if rows:
            nr, nc = c.dim("rows", like=q), c.dim("cols")
            U = kw[rows] = c.csr("U", nr, nc)
        seen = []

        def summary(ip, f, a, k):
            seen.append((a, k))
            return ("the answer of _batch_call",)
        c.w.summaries["implicit.utils:_batch_call"] = summary
        for o in c.method(m, method, [ids], kw):
            v = c.at(o)
            if o.sig == "raise":
                c.check("raises only ValueError", o.val.typ == "ValueError", o.val.typ)
                if rows:
                    c.require("raises only for interactions that do not match", or_(ne(nr, q), lt(n, nc)))
                else:
                    c.fail("never raises", o.val.typ)
                continue
            if not seen:
                raise Unsupported("a batch without _batch_call")
            if rows:
                c.require("one row of interactions per user", eq(nr, q))
                c.require("interactions with items outside of the model are rejected", le(nc, n))
            c.check("the answer is that of _batch_call", v == ("the answer of _batch_call",), str(v))
            a, k = seen[-1]
            if len(a) != 2 or getattr(a[0], "self_", None) != m:
                raise Unsupported("arguments of _batch_call")
            c.check("every query is the scalar form of the same one", a[0] == c.w.getattr(c.ip, m, method) or getattr(a[0], "name", "").split(".")[-1] == method, str(a[0]))
            c.check("the ids are passed on", isinstance(a[1], Arr) and a[1].same(ids), "other ids")
            for x in kw:
                c.check("%s is passed on" % x, x in k and (k[x] is kw[x] or c.ip.same(k[x], kw[x])), "changed")
            for x in sorted(set(k) - set(kw)):
                c.check("nothing else is passed: %s" % x, k[x] is None or k[x] is False, str(k[x]))


forwards("recommend", ("N", "filter_already_liked_items", "filter_items"), "user_items")
forwards("recommend", ("N", "filter_already_liked_items", "items"), "user_items")
forwards("similar_items", ("N", "filter_items"), None)
forwards("similar_items", ("N", "items"), None)


@contract(["C21"], "augment_inner_product_matrix", [MOD + ":augment_inner_product_matrix"])
def augment(c):
    n, f = c.dim("n", 1), c.dim("factors", 1)
    Y = c.array("Y", (n, f), dtype="float32")
    for o in c.call(MOD + ":augment_inner_product_matrix", [Y]):
        v = c.at(o)
        if o.sig == "raise":
            c.fail("never raises", o.val.typ)
            continue
        m, A = v
        c.equal("a row per item", lift(A.shape[0]), n)
        c.equal("one more column", lift(A.shape[1]), add(f, ONE))
        i, j = c.index(n, f)
        c.equal("the factors are kept, so that the product with a query extended by zero is the same", c.elem(A, i, j), app("Y", i, j))
        k = tm.fresh("k")
        sq = mk_sum(k, ZERO, f, mul(app("Y", i, k), app("Y", i, k)))
        nm = app("sqrt", sq)
        c.assume(and_(le(ZERO, sq), le(ZERO, nm), eq(mul(nm, nm), sq)))
        m = lift(m)
        c.require("no factor is longer than the common norm", le(nm, m))
        x = c.elem(A, i, f)
        c.require("the common norm is not negative", le(ZERO, m))
        c.assume(implies(le(ZERO, sub(mul(m, m), sq)), eq(mul(app("sqrt", sub(mul(m, m), sq)), app("sqrt", sub(mul(m, m), sq))), sub(mul(m, m), sq))))
        c.equal("every item has the same norm", add(sq, mul(x, x)), mul(m, m))
        c.equal("the factors passed in are unchanged", c.elem(Y, i, j), app("Y", i, j))
