"""Contracts of the train/test splits (implicit/evaluation.pyx) (C15, C18, C05)."""
from contract import *  # noqa
import lib_rand

MOD = "implicit.evaluation"


class Entries:
    """the stored entries of the matrix that was passed in: n, row, column and value of each"""
    def __init__(self, c, kind, rows, cols):
        s, t = tm.fresh("s"), tm.fresh("t")
        vals = lambda r: Fraction(r.choice([-2, -1, 1, 2, 3, 4, 5]))
        self.n = var("nnz_R")
        self.val = lambda k: app("data_R", k)
        c.kindof = kind
        self.kind = kind
        inr = and_(le(ZERO, s), lt(s, self.n))
        if kind == "coo":
            self.o = c.coo("R", rows, cols, values=vals, dtype=I.DType("float32"))
            self.row, self.col = (lambda k: app("row_R", k, sort="I")), (lambda k: app("col_R", k, sort="I"))
            c.given(forall([s, t], implies(and_(le(ZERO, s), lt(s, t), lt(t, self.n)), or_(ne(self.row(s), self.row(t)), ne(self.col(s), self.col(t))))))
        else:
            self.o = c.csr("R", rows, cols, values=vals, dtype=I.DType("float32"))
            r_, c_, d_ = lib_np.coo_entries(c.ip, self.o)
            self.row, self.col = c.ip.elem(r_), (lambda k: app("indices_R", k, sort="I"))
            P = lambda x: app("indptr_R", x, sort="I")
            c.given(forall([s, t], implies(and_(le(ZERO, s), lt(s, t), lt(t, self.n)), or_(ne(self.row(s), self.row(t)), ne(self.col(s), self.col(t))))))
        c.given(forall([s], implies(inr, ne(self.val(s), ZERO))))
        self.c = c

    def unchanged(self):
        c = self.c
        k = c.index(self.n)
        for a, f in (("data", self.val),) + ((("row", self.row), ("col", self.col)) if self.kind == "coo" else (("indices", self.col),)):
            c.equal("%s of the ratings unchanged" % a, c.elem(c.attr(self.o, a), k), f(k))


def chain(c, m):
    """how a matrix built with csr_matrix((data, (row, col))) (and eliminate_zeros) came about: functions from a position in it to
    the position in the arrays it was built from, and back"""
    rec = c.ip.st.heap[m.id]
    last = None
    if "_before" in rec:
        last = rec
        rec = rec["_before"]
    if "_from" not in rec or "_links" not in rec:
        raise Unsupported("a matrix that was not built from its entries")
    rec["_links"](c.ip)
    src, dst = rec["_src"], rec["_dst"]
    coo = c.ip.st.heap[rec["_from"].id]
    fwd = lambda t: src(last["_pos"](t) if last else t)
    back = lambda s: last["_rank"](dst(s)) if last else dst(s)
    return coo, fwd, back, ([dst] + ([last["_rank"]] if last else []))


def mask_of(c, a):
    """(pos, rank) of an array made by selecting with a mask"""
    x = var("probe")
    found = [t for t in subterms(c.ip.elem(a)(x)) if t.op == "app" and t.args[0] == "mpos" and t.args[-1] is x]
    if not found:
        raise Unsupported("an array that was not selected with a mask")
    p = found[-1]
    for t in found:
        if all(u is t or u not in set(subterms(t)) for u in found):
            p = t
    return (lambda k: app("mpos", *p.args[1:-1], k, sort="I")), (lambda k: app("mrank", *p.args[1:-1], k, sort="I"))


def holds(c, name, m, r, j, v, t):
    """the matrix has (at position t, if it is known) the value v at row r, column j"""
    rec = c.ip.st.heap[m.id]
    P, Ix, D_ = c.ip.elem(rec["indptr"]), c.ip.elem(rec["indices"]), c.ip.elem(rec["data"])
    at = lambda t: and_(le(P(r), t), lt(t, P(add(r, ONE))), eq(Ix(t), j), eq(D_(t), v))
    x = tm.fresh("x")
    c.require(name, at(t) if t is not None else exists([x], at(x)))


def tts(kind, seed):
    @contract(["C15", "C05", "C18"], "train_test_split (%s matrix, %s)" % (kind, seed), [MOD + ":train_test_split", "implicit.utils:check_random_state"])
    def run(c):
        rows, cols = c.dim("rows", 0, 3), c.dim("cols", 0, 3)
        R = Entries(c, kind, rows, cols)
        p = c.real("p", g=lambda r, k: Fraction(r.randint(0, 10), 10))
        sd = c.integer("seed", 0)
        st = sd if seed == "seed" else lib_rand.new_gen(c.ip, sd)
        for o in c.call(MOD + ":train_test_split", [R.o], {"train_percentage": p, "random_state": st}):
            v = c.at(o)
            if o.sig == "raise":
                c.fail("never raises", o.val.typ)
                continue
            draw = lambda s: app("draw_Generator_random", sd, ZERO, s)
            for m, nm in zip(v, ("train", "test")):
                if not c.w.is_sparse(m):
                    raise Unsupported("result")
                c.check("%s is a CSR matrix" % nm, m.cls.name.startswith("csr"), m.cls.name)
                rec = c.ip.st.heap[m.id]
                c.equal("%s has the shape of the input (rows)" % nm, rec["_shape"][0], rows)
                c.equal("%s has the shape of the input (columns)" % nm, rec["_shape"][1], cols)
                c.check("%s has the type of the input" % nm, rec["_dtype"] is not None and rec["_dtype"].name == "float32", str(rec["_dtype"]))
                here = (lambda s: lt(draw(s), p)) if nm == "train" else (lambda s: and_(le(p, draw(s)), le(ZERO, R.val(s))))
                coo, fwd, back, steps = chain(c, m)
                pos, rank = mask_of(c, coo["data"])
                # soundness: what is in the matrix was in the input, at the same place, and belongs there
                st0 = c.ip.st.copy()
                r, t = c.index(rows, rec["_nnz"])
                P, Ix, D_ = c.ip.elem(rec["indptr"]), c.ip.elem(rec["indices"]), c.ip.elem(rec["data"])
                c.assume(and_(le(P(r), t), lt(t, P(add(r, ONE)))))
                s = pos(fwd(t))
                c.require("an entry of %s comes from the input" % nm, and_(le(ZERO, s), lt(s, R.n)))
                if "_before" in rec:
                    c.lemma("%s: the entry before zeros were dropped" % nm, and_(le(ZERO, rec["_pos"](t)), lt(rec["_pos"](t), rec["_before"]["_nnz"])))
                    c.lemma("%s: its row before" % nm, (lambda q, P2: and_(le(P2(r), q), lt(q, P2(add(r, ONE)))))(rec["_pos"](t), c.ip.elem(rec["_before"]["indptr"])))
                    base = rec["_before"]
                    q = rec["_pos"](t)
                else:
                    base, q = rec, t
                P2 = c.ip.elem(base["indptr"])
                rr = c.ip.elem(coo["row"])(base["_src"](q))
                c.lemma("%s: the row of the source" % nm, and_(le(ZERO, rr), lt(rr, rows), le(P2(rr), q), lt(q, P2(add(rr, ONE)))))
                c.lemma("%s: the same row" % nm, eq(rr, r))
                c.require("an entry of %s keeps its row" % nm, eq(R.row(s), r))
                c.require("an entry of %s keeps its column" % nm, eq(Ix(t), R.col(s)))
                c.require("an entry of %s keeps its value" % nm, eq(D_(t), R.val(s)))
                c.require("an entry of %s belongs there" % nm, here(s))
                c.ip.st = st0
                # completeness
                s = c.index(R.n)
                c.assume(here(s))
                k = rank(s)
                ok = c.lemma("%s: the entry is selected" % nm, and_(le(ZERO, k), lt(k, coo["_nnz"]), eq(pos(k), s)))
                q = base["_dst"](k)
                ok = ok and c.lemma("%s: where it went" % nm, and_(le(ZERO, q), lt(q, base["_nnz"]), eq(base["_src"](q), k)))
                if "_before" in rec:
                    t = rec["_rank"](q)
                    ok = ok and c.lemma("%s: it is not dropped" % nm, and_(le(ZERO, t), lt(t, rec["_nnz"]), eq(rec["_pos"](t), q)))
                else:
                    t = q
                holds(c, "every rating that belongs to %s is there" % nm, m, R.row(s), R.col(s), R.val(s), t if ok else None)
                c.ip.st = st0
            R.unchanged()


for kind in ("coo", "csr"):
    for seed in ("seed", "generator"):
        tts(kind, seed)
