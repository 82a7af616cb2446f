"""One intermediate form for the verified text: a tree of N(kind, line, fields).

py_module(path): from CPython's own parser (ast), nothing dropped but comments/docstrings.
json_module(tree): from the JSON produced by cy2ir.py (Cython's own parser) or cpp2ir.py (clang)."""
import ast


class N:
    __slots__ = ("k", "line", "__dict__")

    def __init__(self, k, line=0, **f):
        self.k = k
        self.line = line
        self.__dict__.update(f)

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join("%s=%r" % kv for kv in self.__dict__.items()))


def from_json(j):
    if isinstance(j, list):
        return [from_json(x) for x in j]
    if isinstance(j, dict):
        if "k" in j:
            d = {a: from_json(b) for a, b in j.items() if a not in ("k", "line")}
            return N(j["k"], j.get("line", 0), **d)
        return {a: from_json(b) for a, b in j.items()}
    return j


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
       ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
       ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~", ast.And: "and", ast.Or: "or"}


class Py:
    def expr(self, e):
        if e is None:
            return None
        L = getattr(e, "lineno", 0)
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            return N("Unsupported", L, what=type(e).__name__)
        r = f(e)
        r.line = L
        return r

    def e_Name(self, e): return N("Name", id=e.id)
    def e_Constant(self, e): return N("Const", value=e.value)
    def e_BinOp(self, e): return N("BinOp", op=OPS[type(e.op)], left=self.expr(e.left), right=self.expr(e.right))
    def e_UnaryOp(self, e): return N("UnOp", op=OPS[type(e.op)], operand=self.expr(e.operand))
    def e_BoolOp(self, e): return N("BoolOp", op=OPS[type(e.op)], values=[self.expr(v) for v in e.values])
    def e_Compare(self, e): return N("Compare", left=self.expr(e.left), ops=[OPS[type(o)] for o in e.ops], comps=[self.expr(c) for c in e.comparators])
    def e_Call(self, e): return N("Call", func=self.expr(e.func), args=[self.expr(a) for a in e.args], kwargs=[[k.arg, self.expr(k.value)] for k in e.keywords])
    def e_Attribute(self, e): return N("Attr", value=self.expr(e.value), attr=e.attr)
    def e_Subscript(self, e): return N("Index", value=self.expr(e.value), index=self.expr(e.slice))
    def e_Slice(self, e): return N("Slice", lo=self.expr(e.lower), hi=self.expr(e.upper), step=self.expr(e.step))
    def e_Tuple(self, e): return N("Tuple", elts=[self.expr(x) for x in e.elts])
    def e_List(self, e): return N("List", elts=[self.expr(x) for x in e.elts])
    def e_Set(self, e): return N("List", elts=[self.expr(x) for x in e.elts])
    def e_Dict(self, e): return N("Dict", keys=[self.expr(x) for x in e.keys], values=[self.expr(x) for x in e.values])
    def e_IfExp(self, e): return N("IfExp", test=self.expr(e.test), body=self.expr(e.body), orelse=self.expr(e.orelse))
    def e_Starred(self, e): return N("Star", value=self.expr(e.value))
    def e_JoinedStr(self, e): return N("FStr", parts=[self.expr(v) for v in e.values])
    def e_FormattedValue(self, e): return N("FVal", value=self.expr(e.value))
    def e_Lambda(self, e): return N("Lambda", args=self.args(e.args), body=self.expr(e.body))

    def comp(self, e, kind, elt):
        return N("Comp", kind=kind, elt=elt, gens=[N("Gen", target=self.expr(g.target), iter=self.expr(g.iter), ifs=[self.expr(i) for i in g.ifs]) for g in e.generators])

    def e_ListComp(self, e): return self.comp(e, "list", self.expr(e.elt))
    def e_GeneratorExp(self, e): return self.comp(e, "gen", self.expr(e.elt))
    def e_SetComp(self, e): return self.comp(e, "set", self.expr(e.elt))
    def e_DictComp(self, e): return self.comp(e, "dict", N("Tuple", elts=[self.expr(e.key), self.expr(e.value)]))

    def body(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            if r is not None:
                out.append(r)
        return out

    def stmt(self, s):
        L = s.lineno
        k = type(s).__name__
        if k == "Expr":
            if isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                return None
            return N("Expr", L, value=self.expr(s.value))
        if k == "Assign":
            return N("Assign", L, targets=[self.expr(t) for t in s.targets], value=self.expr(s.value))
        if k == "AnnAssign":
            return N("Assign", L, targets=[self.expr(s.target)], value=self.expr(s.value)) if s.value else None
        if k == "AugAssign":
            return N("AugAssign", L, target=self.expr(s.target), op=OPS[type(s.op)], value=self.expr(s.value))
        if k == "If":
            return N("If", L, test=self.expr(s.test), body=self.body(s.body), orelse=self.body(s.orelse))
        if k == "For":
            return N("For", L, target=self.expr(s.target), iter=self.expr(s.iter), body=self.body(s.body), orelse=self.body(s.orelse))
        if k == "While":
            return N("While", L, test=self.expr(s.test), body=self.body(s.body), orelse=self.body(s.orelse))
        if k == "Return":
            return N("Return", L, value=self.expr(s.value))
        if k == "Raise":
            return N("Raise", L, exc=self.expr(s.exc))
        if k in ("Break", "Continue", "Pass"):
            return N(k, L)
        if k == "With":
            return N("With", L, items=[[self.expr(i.context_expr), self.expr(i.optional_vars)] for i in s.items], body=self.body(s.body))
        if k == "Try":
            return N("Try", L, body=self.body(s.body), handlers=[N("Handler", L, type=self.expr(h.type), name=h.name, body=self.body(h.body)) for h in s.handlers],
                     orelse=self.body(s.orelse), final=self.body(s.finalbody))
        if k in ("FunctionDef", "AsyncFunctionDef"):
            return self.func(s)
        if k == "ClassDef":
            return N("Class", L, name=s.name, bases=[self.expr(b) for b in s.bases], body=self.body(s.body))
        if k == "Import":
            return N("Import", L, names=[[a.name, a.asname] for a in s.names])
        if k == "ImportFrom":
            return N("From", L, module=s.module or "", level=s.level, names=[[a.name, a.asname] for a in s.names])
        if k == "Delete":
            return N("Delete", L, targets=[self.expr(t) for t in s.targets])
        if k == "Assert":
            return N("Assert", L, test=self.expr(s.test))
        if k in ("Global", "Nonlocal"):
            return N("Global", L, names=s.names)
        return N("Unsupported", L, what=k)

    def args(self, a):
        out = []
        pos = a.posonlyargs + a.args
        d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for x, v in zip(pos, d):
            out.append(N("Arg", 0, name=x.arg, default=self.expr(v), kw=False, star="", type=None))
        if a.vararg:
            out.append(N("Arg", 0, name=a.vararg.arg, default=None, kw=False, star="*", type=None))
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            out.append(N("Arg", 0, name=x.arg, default=self.expr(v), kw=True, star="", type=None))
        if a.kwarg:
            out.append(N("Arg", 0, name=a.kwarg.arg, default=None, kw=False, star="**", type=None))
        return out

    def func(self, s):
        return N("Func", s.lineno, name=s.name, args=self.args(s.args), body=self.body(s.body), decorators=[self.expr(d) for d in s.decorator_list],
                 gen=any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)), lang="py")

    def e_Yield(self, e): return N("Yield", value=self.expr(e.value))


def py_module(path):
    with open(path, encoding="utf8") as f:
        src = f.read()
    return N("Module", 0, body=Py().body(ast.parse(src).body), path=path)


def py_source(src, path="<string>"):
    return N("Module", 0, body=Py().body(ast.parse(src).body), path=path)


def py_expr(src):
    return Py().expr(ast.parse(src, mode="eval").body)


def walk(n):
    if isinstance(n, N):
        yield n
        for v in n.__dict__.values():
            yield from walk(v)
    elif isinstance(n, (list, tuple)):
        for v in n:
            yield from walk(v)
    elif isinstance(n, dict):
        for v in n.values():
            yield from walk(v)
