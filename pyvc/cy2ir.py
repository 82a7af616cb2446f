"""/opt/venv/bin/python cy2ir.py FILE.pyx ... -> JSON {path: tree} on stdout.
Parses with Cython's own parser.  Dropped: nogil/gil blocks (kept as plain blocks), cimports, directives,
exception specs, `inline`, visibility.  C types of declarations and arguments are kept as strings."""
import json
import sys

from Cython.Compiler import Errors, Main, Options
from Cython.Compiler.Scanning import FileSourceDescriptor


def ctype(base, decl=None):
    """text of a C type"""
    if base is None:
        t = ""
    else:
        k = type(base).__name__
        if k == "CSimpleBaseTypeNode":
            t = base.name or ""
        elif k == "MemoryViewSliceTypeNode":
            t = ctype(base.base_type_node) + "[" + ",".join(":" for _ in base.axes) + "]"
        elif k == "TemplatedTypeNode":
            t = ctype(base.base_type_node) + "<" + ",".join(ctype(getattr(p, "base_type", p), getattr(p, "declarator", None)) for p in base.positional_args) + ">"
        elif k == "CComplexBaseTypeNode":
            t = ctype(base.base_type, base.declarator)
        elif k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            t = ctype(base.base_type)
        elif k == "CNestedBaseTypeNode":
            t = ctype(base.base_type) + "." + base.name
        elif k == "NameNode":
            t = base.name
        else:
            t = k
    d = decl
    while d is not None and type(d).__name__ != "CNameDeclaratorNode":
        if type(d).__name__ in ("CPtrDeclaratorNode",):
            t += "*"
        elif type(d).__name__ == "CReferenceDeclaratorNode":
            t += "&"
        elif type(d).__name__ == "CFuncDeclaratorNode":
            pass
        elif type(d).__name__ == "CArrayDeclaratorNode":
            t += "[]"
        d = getattr(d, "base", None)
    return t


def dname(d):
    while d is not None and type(d).__name__ != "CNameDeclaratorNode":
        d = getattr(d, "base", None)
    return d.name if d is not None else ""


def ddefault(d):
    while d is not None and type(d).__name__ != "CNameDeclaratorNode":
        d = getattr(d, "base", None)
    return getattr(d, "default", None)


class T:
    def __init__(self):
        self.dropped = set()

    def n(self, k, node, **f):
        f["k"] = k
        f["line"] = node.pos[1] if node is not None and getattr(node, "pos", None) else 0
        return f

    def expr(self, e):
        if e is None:
            return None
        k = type(e).__name__
        f = getattr(self, "e_" + k, None)
        if f is not None:
            return f(e)
        if hasattr(e, "operator") and hasattr(e, "operand1"):
            if k in ("BoolBinopNode",):
                pass
            elif hasattr(e, "cascade"):
                pass
            else:
                return self.n("BinOp", e, op=e.operator, left=self.expr(e.operand1), right=self.expr(e.operand2))
        return self.n("Unsupported", e, what=k)

    def e_NameNode(self, e): return self.n("Name", e, id=str(e.name))
    def e_IntNode(self, e):
        v = e.value if isinstance(e.value, int) else int(str(e.value).rstrip("LlUu"), 0)
        return self.n("Const", e, value=v)
    def e_FloatNode(self, e): return self.n("Const", e, value={"float": str(e.value)})
    def e_BoolNode(self, e): return self.n("Const", e, value=bool(e.value))
    def e_NoneNode(self, e): return self.n("Const", e, value=None)
    def e_UnicodeNode(self, e): return self.n("Const", e, value=str(e.value))
    def e_StringNode(self, e): return self.n("Const", e, value=str(e.value))
    def e_BytesNode(self, e): return self.n("Const", e, value=e.value.decode("latin1") if isinstance(e.value, bytes) else str(e.value))
    def e_IdentifierStringNode(self, e): return self.n("Const", e, value=str(e.value))
    def e_NullNode(self, e): return self.n("Const", e, value=0)
    def e_EllipsisNode(self, e): return self.n("Const", e, value="...")
    def e_AttributeNode(self, e): return self.n("Attr", e, value=self.expr(e.obj), attr=str(e.attribute))
    def e_SimpleCallNode(self, e): return self.n("Call", e, func=self.expr(e.function), args=[self.expr(a) for a in e.args], kwargs=[])

    def e_GeneralCallNode(self, e):
        kws = []
        ka = e.keyword_args
        if ka is not None:
            if type(ka).__name__ == "MergedDictNode":
                for part in ka.keyword_args:
                    if type(part).__name__ == "DictNode":
                        for it in part.key_value_pairs:
                            kws.append([str(it.key.value), self.expr(it.value)])
                    else:
                        kws.append([None, self.expr(part)])
            elif type(ka).__name__ == "DictNode":
                for it in ka.key_value_pairs:
                    kws.append([str(it.key.value), self.expr(it.value)])
            else:
                kws.append([None, self.expr(ka)])
        pa = e.positional_args
        args = [self.expr(a) for a in pa.args] if type(pa).__name__ == "TupleNode" else [self.n("Star", e, value=self.expr(pa))]
        return self.n("Call", e, func=self.expr(e.function), args=args, kwargs=kws)

    def e_IndexNode(self, e): return self.n("Index", e, value=self.expr(e.base), index=self.expr(e.index))
    def e_SliceIndexNode(self, e):
        return self.n("Index", e, value=self.expr(e.base), index=self.n("Slice", e, lo=self.expr(e.start), hi=self.expr(e.stop), step=None))
    def e_SliceNode(self, e):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.expr(x)
        return self.n("Slice", e, lo=g(e.start), hi=g(e.stop), step=g(e.step))
    def e_TupleNode(self, e): return self.n("Tuple", e, elts=[self.expr(x) for x in e.args])
    def e_ListNode(self, e): return self.n("List", e, elts=[self.expr(x) for x in e.args])
    def e_DictNode(self, e): return self.n("Dict", e, keys=[self.expr(i.key) for i in e.key_value_pairs], values=[self.expr(i.value) for i in e.key_value_pairs])
    def e_CondExprNode(self, e): return self.n("IfExp", e, test=self.expr(e.test), body=self.expr(e.true_val), orelse=self.expr(e.false_val))
    def e_UnaryMinusNode(self, e): return self.n("UnOp", e, op="-", operand=self.expr(e.operand))
    def e_UnaryPlusNode(self, e): return self.n("UnOp", e, op="+", operand=self.expr(e.operand))
    def e_TildeNode(self, e): return self.n("UnOp", e, op="~", operand=self.expr(e.operand))
    def e_NotNode(self, e): return self.n("UnOp", e, op="not", operand=self.expr(e.operand))
    def e_BoolBinopNode(self, e):
        return self.n("BoolOp", e, op=e.operator, values=[self.expr(e.operand1), self.expr(e.operand2)])

    def e_PrimaryCmpNode(self, e):
        ops, comps = [e.operator], [self.expr(e.operand2)]
        c = e.cascade
        while c is not None:
            ops.append(c.operator)
            comps.append(self.expr(c.operand2))
            c = c.cascade
        ops = [{"is_not": "is not", "not_in": "not in"}.get(o, o) for o in ops]
        return self.n("Compare", e, left=self.expr(e.operand1), ops=ops, comps=comps)

    def e_AmpersandNode(self, e): return self.n("AddrOf", e, value=self.expr(e.operand))
    def e_TypecastNode(self, e): return self.n("Cast", e, type=ctype(e.base_type, e.declarator), value=self.expr(e.operand))
    def e_SizeofTypeNode(self, e): return self.n("SizeOf", e, type=ctype(e.base_type, e.declarator))
    def e_SizeofVarNode(self, e): return self.n("SizeOf", e, type=str(getattr(e.operand, "name", "")))
    def e_NewExprNode(self, e): return self.n("New", e, type=ctype(e.cppclass))
    def e_JoinedStrNode(self, e): return self.n("FStr", e, parts=[self.expr(v) for v in e.values])
    def e_FormattedValueNode(self, e): return self.n("FVal", e, value=self.expr(e.value))
    def e_ImportNode(self, e): return self.n("Unsupported", e, what="import")
    def e_LambdaNode(self, e): return self.n("Unsupported", e, what="lambda")
    def e_TypeofNode(self, e): return self.n("Unsupported", e, what="typeof")

    def comp(self, e, kind):
        gens = []
        loop = e.loop
        elt = None
        cur = loop
        ifs = []
        while cur is not None:
            k = type(cur).__name__
            if k == "StatListNode":
                cur = cur.stats[0] if len(cur.stats) == 1 else None
                continue
            if k == "ForInStatNode":
                it = cur.iterator
                gens.append(self.n("Gen", cur, target=self.expr(cur.target), iter=self.expr(it.sequence if hasattr(it, "sequence") else it), ifs=[]))
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1]["ifs"].append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "ComprehensionAppendNode":
                elt = self.expr(cur.expr)
                break
            elif k == "DictComprehensionAppendNode":
                elt = self.n("Tuple", cur, elts=[self.expr(cur.key_expr), self.expr(cur.value_expr)])
                break
            elif k == "ExprStatNode":
                x = cur.expr
                if type(x).__name__ == "DictComprehensionAppendNode":
                    elt = self.n("Tuple", x, elts=[self.expr(x.key_expr), self.expr(x.value_expr)])
                elif hasattr(x, "expr"):
                    elt = self.expr(x.expr)
                elif hasattr(x, "arg"):
                    elt = self.expr(x.arg)
                break
            else:
                break
        if elt is None:
            return self.n("Unsupported", e, what="comprehension")
        return self.n("Comp", e, kind=kind, elt=elt, gens=gens)

    def e_ComprehensionNode(self, e):
        t = str(getattr(e, "type", ""))
        kind = "dict" if "dict" in t else "set" if "set" in t else "list"
        return self.comp(e, kind)

    # ---------------------------------------------------------------- statements
    def block(self, b):
        if b is None:
            return []
        k = type(b).__name__
        if k == "StatListNode":
            out = []
            for s in b.stats:
                out += self.block(s)
            return out
        r = self.stmt(b)
        return r if isinstance(r, list) else ([] if r is None else [r])

    def stmt(self, s):
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            return self.n("Unsupported", s, what=k)
        return f(s)

    def s_PassStatNode(self, s): return None
    def s_BreakStatNode(self, s): return self.n("Break", s)
    def s_ContinueStatNode(self, s): return self.n("Continue", s)

    def s_ExprStatNode(self, s):
        if type(s.expr).__name__ in ("UnicodeNode", "StringNode", "BytesNode"):
            return None
        return self.n("Expr", s, value=self.expr(s.expr))

    def s_SingleAssignmentNode(self, s):
        if type(s.rhs).__name__ == "ImportNode":
            r = s.rhs
            m, a = str(r.module_name.value), str(s.lhs.name)
            return self.n("Import", s, names=[[m, None if a == m.split(".")[0] else a]])
        return self.n("Assign", s, targets=[self.expr(s.lhs)], value=self.expr(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        return self.n("Assign", s, targets=[self.expr(x) for x in s.lhs_list], value=self.expr(s.rhs))

    def s_InPlaceAssignmentNode(self, s): return self.n("AugAssign", s, target=self.expr(s.lhs), op=s.operator, value=self.expr(s.rhs))

    def s_ParallelAssignmentNode(self, s):
        l, r = [x.lhs for x in s.stats], [x.rhs for x in s.stats]
        return self.n("Assign", s, targets=[self.n("Tuple", s, elts=[self.expr(x) for x in l])], value=self.n("Tuple", s, elts=[self.expr(x) for x in r]))

    def s_IfStatNode(self, s):
        rest = self.block(s.else_clause)
        for c in reversed(s.if_clauses):
            rest = [self.n("If", c, test=self.expr(c.condition), body=self.block(c.body), orelse=rest)]
        return rest

    def s_ForInStatNode(self, s):
        it = s.iterator
        return self.n("For", s, target=self.expr(s.target), iter=self.expr(it.sequence if hasattr(it, "sequence") else it), body=self.block(s.body), orelse=self.block(s.else_clause))

    def s_WhileStatNode(self, s): return self.n("While", s, test=self.expr(s.condition), body=self.block(s.body), orelse=self.block(s.else_clause))
    def s_ReturnStatNode(self, s): return self.n("Return", s, value=self.expr(s.value))
    def s_RaiseStatNode(self, s): return self.n("Raise", s, exc=self.expr(s.exc_type))
    def s_AssertStatNode(self, s): return self.n("Assert", s, test=self.expr(s.condition))
    def s_GlobalNode(self, s): return self.n("Global", s, names=[str(x) for x in s.names])
    def s_DelStatNode(self, s): return self.n("Delete", s, targets=[self.expr(a) for a in s.args])

    def s_GILStatNode(self, s):
        self.dropped.add("with %s" % s.state)
        return self.block(s.body)

    def s_WithStatNode(self, s):
        return self.n("With", s, items=[[self.expr(s.manager), self.expr(s.target)]], body=self.block(s.body))

    def s_TryFinallyStatNode(self, s): return self.n("Try", s, body=self.block(s.body), handlers=[], orelse=[], final=self.block(s.finally_clause))

    def s_TryExceptStatNode(self, s):
        return self.n("Try", s, body=self.block(s.body), handlers=[self.n("Handler", c, type=self.expr(c.pattern[0]) if c.pattern else None, name=None, body=self.block(c.body)) for c in s.except_clauses],
                      orelse=self.block(s.else_clause), final=[])

    def s_CVarDefNode(self, s):
        out = []
        for d in s.declarators:
            dv = ddefault(d)
            out.append(self.n("Decl", s, name=str(dname(d)), type=ctype(s.base_type, d), value=self.expr(dv)))
        return out

    def s_CImportStatNode(self, s):
        return self.n("Import", s, names=[[str(s.module_name), str(s.as_name) if s.as_name else None]])

    def s_FromCImportStatNode(self, s):
        return self.n("From", s, module=str(s.module_name), level=s.relative_level or 0, names=[[str(x[1]), str(x[2]) if x[2] else None] for x in s.imported_names], c=True)

    def s_FromImportStatNode(self, s):
        m = s.module
        return self.n("From", s, module=str(m.module_name.value), level=(m.level if m.level and m.level > 0 else 0), names=[[str(a), str(b.name) if b is not None else None] for a, b in s.items])

    def s_CDefExternNode(self, s): return None
    def s_CTypeDefNode(self, s): return None

    def cargs(self, args):
        out = []
        for a in args:
            nm = dname(a.declarator)
            ty = ctype(a.base_type, a.declarator)
            if not nm:
                nm, ty = (a.base_type.name, "") if hasattr(a.base_type, "name") else ("", ty)
            d = a.default if a.default is not None else ddefault(a.declarator)
            out.append(self.n("Arg", a, name=str(nm), type=str(ty), default=self.expr(d), kw=bool(getattr(a, "kw_only", False)), star=""))
        return out

    def func(self, s, name, args, ret=""):
        out = self.cargs(args)
        for attr, star in (("star_arg", "*"), ("starstar_arg", "**")):
            a = getattr(s, attr, None)
            if a is not None:
                out.append(self.n("Arg", a, name=str(a.name), type=None, default=None, kw=False, star=star))
        decs = [self.expr(d.decorator) for d in (s.decorators or [])] if getattr(s, "decorators", None) else []
        return self.n("Func", s, name=str(name), args=out, body=self.block(s.body), decorators=decs, gen=False, lang="cy", ret=ret)

    def s_DefNode(self, s): return self.func(s, s.name, s.args)

    def s_CFuncDefNode(self, s):
        d = s.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        return self.func(s, dname(d.base), d.args, ctype(s.base_type, s.declarator))

    def s_PyClassDefNode(self, s):
        b = s.bases
        return self.n("Class", s, name=str(s.name), bases=[self.expr(x) for x in (b.args if b is not None and hasattr(b, "args") else [])], body=self.block(s.body))

    def s_CClassDefNode(self, s):
        return self.n("Class", s, name=str(s.class_name), bases=[], body=self.block(s.body))

    def s_PropertyNode(self, s): return self.n("Unsupported", s, what="property")


def parse(path):
    opts = Options.CompilationOptions(Options.default_options, language_level=3, cplus=True)
    ctx = Main.Context.from_options(opts)
    sd = FileSourceDescriptor(path)
    Errors.init_thread()
    name = path.rsplit("/", 1)[-1][:-4]
    scope = ctx.find_module(name, pos=(sd, 1, 0), need_pxd=0)
    tree = ctx.parse(sd, scope, pxd=0, full_module_name=name)
    t = T()
    return {"k": "Module", "line": 0, "body": t.block(tree.body), "path": path, "dropped": sorted(t.dropped)}


if __name__ == "__main__":
    print(json.dumps({p: parse(p) for p in sys.argv[1:]}))
