"""The C++ headers of the package, through clang's own parser (clang++ -Xclang -ast-dump=json), in the form of ir.py.

What is verified is the instantiation the package uses (INSTANCES).  Dropped: comments, const, inline, access levels, names of
template parameters.  `for (T i = a; i < b; ++i)` becomes a range loop together with the check that the bound keeps its value.
Everything that is not listed here becomes Unsupported."""
import json
import os
import subprocess
import tempfile

from ir import N

INSTANCES = '''#include "implicit/cpu/select.h"
#include "implicit/nearest_neighbours.h"
template void implicit::select<float>(const float*, int, int, int, int*, float*);
template struct implicit::TopK<int, double>;
template class implicit::SparseMatrixMultiplier<int, double>;
template void implicit::SparseMatrixMultiplier<int, double>::foreach<implicit::TopK<int, double>>(implicit::TopK<int, double>&);
'''
MODULE = "implicit.cpp"
TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr"}
UNSIGNED = ("unsigned", "size_t", "size_type")


def typ(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


class X:
    def __init__(self):
        self.line = 0
        self.k = 0

    def at(self, n):
        b = (n.get("range") or {}).get("begin") or {}
        self.line = b.get("line") or (b.get("expansionLoc") or {}).get("line") or self.line
        return self.line

    def n(self, k, **f):
        return N(k, self.line, **f)

    def un(self, what):
        return self.n("Unsupported", what=what)

    def inner(self, n):
        return [x for x in n.get("inner", []) if x.get("kind") and not x["kind"].endswith("Comment")]

    # ---- expressions
    def expr(self, n):
        self.at(n)
        k = n["kind"]
        ch = self.inner(n)
        if k in ("ImplicitCastExpr",) or k in TRANSPARENT:
            if len(ch) != 1:
                return self.un(k)
            c = n.get("castKind")
            v = self.expr(ch[0])
            if c == "IntegralCast" and v.k != "Const":
                return self.n("Cast", type="size_t" if any(u in typ(n) for u in UNSIGNED) else "int", value=v, c=True)
            if c == "FloatingToIntegral":
                return self.n("Cast", type="int", value=v)
            if c in (None, "NoOp", "LValueToRValue", "IntegralToFloating", "FunctionToPointerDecay", "IntegralCast", "FloatingCast", "ConstructorConversion",
                     "UncheckedDerivedToBase", "DerivedToBase", "IntegralToBoolean", "ArrayToPointerDecay"):
                return v
            return self.un("cast " + c)
        if k == "IntegerLiteral":
            return self.n("Const", value=int(n["value"]))
        if k == "FloatingLiteral":
            return self.n("Const", value=float(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return self.n("Const", value=bool(n["value"]))
        if k == "DeclRefExpr":
            return self.n("Name", id=n["referencedDecl"]["name"])
        if k == "CXXThisExpr":
            return self.n("Name", id="self")
        if k == "MemberExpr":
            return self.n("Attr", value=self.expr(ch[0]), attr=n["name"])
        if k == "ArraySubscriptExpr":
            return self.n("Index", value=self.expr(ch[0]), index=self.expr(ch[1]))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("-", "+", "!"):
                return self.n("UnOp", op="not" if op == "!" else op, operand=self.expr(ch[0]))
            if op == "*" and ch[0]["kind"] == "CXXThisExpr":
                return self.expr(ch[0])
            return self.un("operator " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            if op in ("+", "-", "*"):
                return self.n("BinOp", op=op, left=self.expr(ch[0]), right=self.expr(ch[1]))
            if op in ("<", "<=", ">", ">=", "==", "!="):
                return self.n("Compare", left=self.expr(ch[0]), ops=[op], comps=[self.expr(ch[1])])
            if op in ("&&", "||"):
                return self.n("BoolOp", op="and" if op == "&&" else "or", values=[self.expr(ch[0]), self.expr(ch[1])])
            return self.un("operator " + op)
        if k == "ConditionalOperator":
            return self.n("IfExp", test=self.expr(ch[0]), body=self.expr(ch[1]), orelse=self.expr(ch[2]))
        if k == "CXXMemberCallExpr":
            return self.n("Call", func=self.expr(ch[0]), args=[self.expr(x) for x in ch[1:]], kwargs=[])
        if k == "CXXOperatorCallExpr":
            f = ch[0]
            while f["kind"] != "DeclRefExpr" and f.get("inner"):
                f = self.inner(f)[0]
            name = (f.get("referencedDecl") or {}).get("name", "")
            if name == "operator[]":
                return self.n("Index", value=self.expr(ch[1]), index=self.expr(ch[2]))
            if name == "operator()":
                return self.n("Call", func=self.n("Attr", value=self.expr(ch[1]), attr="operator()"), args=[self.expr(x) for x in ch[2:]], kwargs=[])
            return self.un(name)
        if k == "CallExpr":
            f = self.expr(ch[0])
            args = [self.expr(x) for x in ch[1:]]
            if f.k == "Name" and f.id == "make_pair":
                return self.n("Tuple", elts=args)
            if f.k == "Name" and f.id in ("move", "forward") and len(args) == 1:
                return args[0]
            return self.n("Call", func=f, args=args, kwargs=[])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            t = typ(n)
            args = [self.expr(x) for x in ch if x["kind"] != "CXXDefaultArgExpr"]
            if "iterator" in t or "greater" in t or t.startswith(("const greater",)):
                if len(args) == 1:
                    return args[0]
                if "greater" in t:
                    return self.n("Call", func=self.n("Name", id="std::greater"), args=[], kwargs=[])
                return self.un("construction of " + t)
            if "pair<" in t and not "vector" in t:
                return args[0] if len(args) == 1 else self.n("Tuple", elts=args) if len(args) == 2 else self.un("pair")
            if "vector<" in t:
                kind = "std::heapvector" if "pair<" in t else "std::vector"
                if len(args) == 1 and args[0].k in ("Name", "Attr"):
                    return self.un("copy of a vector")
                dt = "R" if "double" in t or "float" in t else "I"
                return self.n("Call", func=self.n("Name", id=kind), args=args, kwargs=[] if "pair<" in t else [["dt", self.n("Const", value=dt)]])
            return self.un("construction of " + t)
        return self.un(k)

    # ---- statements
    def block(self, n):
        if n is None:
            return []
        if n["kind"] == "CompoundStmt":
            out = []
            for x in self.inner(n):
                out += self.stmt(x)
            return out
        return self.stmt(n)

    def decls(self, n):
        out = []
        for d in self.inner(n):
            if d["kind"] != "VarDecl":
                out.append(self.un(d["kind"]))
                continue
            self.at(d)
            i = self.inner(d)
            t = typ(d)
            if t.endswith("&") and "const" not in t:
                out.append(self.un("reference variable"))
                continue
            v = self.expr(i[0]) if i else None
            out.append(self.n("Assign", targets=[self.n("Name", id=d["name"])], value=v) if v is not None else self.n("Decl", name=d["name"], type="", value=None))
        return out

    def stmt(self, n):
        self.at(n)
        k = n["kind"]
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            return self.decls(n)
        if k == "NullStmt":
            return []
        if k == "ReturnStmt":
            i = self.inner(n)
            return [self.n("Return", value=self.expr(i[0]) if i else None)]
        if k in ("BreakStmt", "ContinueStmt"):
            return [self.n(k[:-4])]
        if k == "IfStmt":
            if n.get("hasVar") or n.get("hasInit"):
                return [self.un("if with a declaration")]
            i = self.inner(n)
            t = self.expr(i[0])
            ln = self.line
            b = self.block(i[1])
            o = self.block(i[2]) if len(i) > 2 else []
            return [N("If", ln, test=t, body=b, orelse=o)]
        if k == "ForStmt":
            return self.for_(n)
        if k == "WhileStmt":
            i = self.inner(n)
            return [self.n("While", test=self.expr(i[0]), body=self.block(i[1]), orelse=[])]
        if k == "BinaryOperator" and n["opcode"] == "=":
            a, b = self.inner(n)
            return [self.n("Assign", targets=[self.expr(a)], value=self.expr(b))]
        if k == "CompoundAssignOperator":
            a, b = self.inner(n)
            return [self.n("AugAssign", target=self.expr(a), op=n["opcode"][:-1], value=self.expr(b))]
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            a, = self.inner(n)
            return [self.n("AugAssign", target=self.expr(a), op=n["opcode"][0], value=self.n("Const", value=1))]
        if k == "ExprWithCleanups" and len(self.inner(n)) == 1:
            return self.stmt(self.inner(n)[0])
        return [self.n("Expr", value=self.expr(n))]

    def for_(self, n):
        init, _, cond, inc, body = (n.get("inner") or [{}] * 5)[:5]
        ln = self.line
        d = self.inner(init) if init.get("kind") == "DeclStmt" else []
        c = cond
        ok = len(d) == 1 and d[0]["kind"] == "VarDecl" and self.inner(d[0]) and c.get("kind") == "BinaryOperator" and c["opcode"] == "<" and inc.get("kind") == "UnaryOperator" and inc["opcode"] == "++"
        if not ok:
            return [self.un("form of for loop")]
        i = d[0]["name"]
        l, hi = (self.expr(x) for x in self.inner(c))
        while l.k == "Cast":
            l = l.value
        v = self.expr(self.inner(inc)[0])
        if l.k != "Name" or l.id != i or v.k != "Name" or v.id != i:
            return [self.un("form of for loop")]
        lo = self.expr(self.inner(d[0])[0])
        b = self.block(body)
        from ir import walk
        for x in walk(b):
            if isinstance(x, N) and (x.k in ("Break", "Continue", "Return") or x.k == "Assign" and any(t.k == "Name" and t.id == i for t in x.targets) or x.k == "AugAssign" and x.target.k == "Name" and x.target.id == i):
                return [self.un("jump in a for loop")]
        self.k += 1
        h = "__bound%d" % self.k
        b = b + [N("Stable", ln, value=hi, name=h)]
        nm = lambda x: N("Name", ln, id=x)
        return [N("Assign", ln, targets=[nm(h)], value=hi),
                N("For", ln, target=nm(i), iter=N("Call", ln, func=nm("range"), args=[lo, nm(h)], kwargs=[]), body=b, orelse=[])]

    # ---- definitions
    def func(self, n, method=False):
        self.at(n)
        ln = self.line
        args, body, inits = [], None, []
        if method:
            args.append(N("Arg", ln, name="self", default=None, kw=False, star="", type=None))
        for x in self.inner(n):
            if x["kind"] == "ParmVarDecl":
                t = typ(x)
                if t.endswith("&") and "const" not in t and "implicit::" not in t and "vector" not in t:
                    return None
                args.append(N("Arg", ln, name=x.get("name", "_"), default=None, kw=False, star="", type=None))
            elif x["kind"] == "CompoundStmt":
                body = x
            elif x["kind"] == "CXXCtorInitializer":
                inits.append(x)
        if body is None:
            return None
        out = []
        for x in inits:
            f = x.get("anyInit") or {}
            i = self.inner(x)
            if not f.get("name") or len(i) != 1:
                out.append(self.un("initialiser"))
                continue
            e = self.expr(i[0])
            out.append(self.n("Assign", targets=[self.n("Attr", value=self.n("Name", id="self"), attr=f["name"])], value=e))
        out += self.block(body)
        name = "__init__" if n["kind"] == "CXXConstructorDecl" else n["name"]
        return N("Func", ln, name=name, args=args, body=out, decorators=[], gen=False, lang="cpp", ret="")

    def cls(self, n):
        self.at(n)
        body = []
        for x in self.inner(n):
            if x["kind"] in ("CXXConstructorDecl", "CXXMethodDecl") and not x.get("isImplicit"):
                f = self.func(x, True)
                if f is not None:
                    body.append(f)
            elif x["kind"] == "FunctionTemplateDecl":
                for y in self.inner(x):
                    if y["kind"] == "CXXMethodDecl" and any(z["kind"] == "TemplateArgument" for z in self.inner(y)):
                        f = self.func(y, True)
                        if f is not None:
                            body.append(f)
        return N("Class", self.line, name=n["name"], bases=[], body=body)


def parse(repo):
    """(module, error)"""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "unit.cpp")
        with open(p, "w") as f:
            f.write(INSTANCES)
        r = subprocess.run(["clang++", "-std=c++14", "-I" + repo, "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=implicit::", p],
                           capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr[-1500:]
    dec = json.JSONDecoder()
    s, i, x, body = r.stdout, 0, X(), {}
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        if o["kind"] == "FunctionTemplateDecl":
            for y in x.inner(o):
                if y["kind"] == "FunctionDecl" and any(z["kind"] == "TemplateArgument" for z in x.inner(y)):
                    f = x.func(y)
                    if f is not None:
                        body.setdefault(f.name, f)
        elif o["kind"] == "FunctionDecl":
            f = x.func(o)
            if f is not None:
                body.setdefault(f.name, f)
        elif o["kind"] == "ClassTemplateSpecializationDecl" or (o["kind"] == "CXXRecordDecl" and o.get("completeDefinition")):
            c = x.cls(o)
            body[c.name] = c
    return N("Module", 0, body=list(body.values()), path=MODULE), None


if __name__ == "__main__":
    import sys
    m, e = parse(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    print(e or m)
