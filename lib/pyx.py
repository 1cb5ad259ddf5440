"""Cython source -> Python ast, with Cython's own parser (the one the build uses)."""
import ast
import glob
import os
import sys
from gvn import AnalysisError


def _cython():
    try:
        import Cython  # noqa
    except ImportError:
        for d in ["/opt/venv/lib/python3.12/site-packages"] + sorted(glob.glob("/opt/venv/lib/python3*/site-packages")):
            if os.path.isdir(d + "/Cython"):
                sys.path.append(d)
                break
    try:
        from Cython.Compiler.TreeFragment import parse_from_strings
    except ImportError:
        raise AnalysisError("Cython's parser is not available")
    return parse_from_strings


def path(repo):
    return os.path.join(repo, "deodr", "differentiable_renderer_cython.pyx")


def tree(repo):
    parse = _cython()
    with open(path(repo), encoding="utf-8") as f:
        src = f.read()
    try:
        return parse("differentiable_renderer_cython", src)
    except Exception as e:  # CompileError and friends
        raise AnalysisError("cannot parse the Cython module: %s" % e)


def children(n):
    for a in n.child_attrs or []:
        c = getattr(n, a)
        if c is None:
            continue
        for x in c if isinstance(c, list) else [c]:
            if hasattr(x, "child_attrs"):
                yield x


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def decl_name(d):
    while not hasattr(d, "name") or type(d).__name__ != "CNameDeclaratorNode":
        d = d.base
    return d.name


def extern_functions(repo):
    out = []
    for n in walk(tree(repo)):
        if type(n).__name__ == "CDefExternNode":
            for v in walk(n.body):
                if type(v).__name__ == "CVarDefNode":
                    for d in v.declarators:
                        if type(d).__name__ == "CFuncDeclaratorNode":
                            # Cython 3: exception_check '+' means C++ exceptions are translated
                            out.append((decl_name(d), d.exception_check == "+", d.pos[1]))
    return out


def typestr(base, decl=None):
    b = type(base).__name__
    if b == "CSimpleBaseTypeNode":
        s = ".".join(list(base.module_path or []) + [base.name or "int"])
        if base.is_basic_c_type:
            s = ("unsigned " if base.signed == 0 else "") + ("long " * base.longness if base.longness > 0 else "short " if base.longness < 0 else "") + s
    elif b == "TemplatedTypeNode":
        kw = {}
        if base.keyword_args is not None:
            for it in base.keyword_args.key_value_pairs:
                kw[str(it.key.value)] = getattr(it.value, "value", None)
        args = [typestr(a.base_type) if hasattr(a, "base_type") else getattr(a, "name", getattr(a, "attribute", "?")) for a in base.positional_args]
        s = "%s[%s]" % (typestr(base.base_type_node), ",".join([str(a) for a in args] + ["%s=%s" % p for p in sorted(kw.items())]))
    else:
        s = b
    while decl is not None and type(decl).__name__ == "CPtrDeclaratorNode":
        s += "*"
        decl = decl.base
    return s


class Conv:
    BIN = dict(zip("+ - * / // % ** | & ^ << >> @".split(),
                   (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.BitOr, ast.BitAnd, ast.BitXor, ast.LShift, ast.RShift, ast.MatMult)))
    CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "is": ast.Is, "is_not": ast.IsNot,
           "in": ast.In, "not_in": ast.NotIn}

    def loc(self, new, n):
        new.lineno = new.end_lineno = n.pos[1]
        new.col_offset = new.end_col_offset = n.pos[2]
        return new

    def e(self, n, ctx=None):
        if n is None:
            return None
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            if hasattr(n, "operator") and hasattr(n, "operand1") and n.operator in self.BIN:
                return self.loc(ast.BinOp(self.e(n.operand1), self.BIN[n.operator](), self.e(n.operand2)), n)
            raise AnalysisError("Cython expression %s not modelled (line %d)" % (k, n.pos[1]))
        return self.loc(f(n, ctx or ast.Load()), n)

    def e_NameNode(self, n, c):
        return ast.Name(str(n.name), c)

    def e_AttributeNode(self, n, c):
        return ast.Attribute(self.e(n.obj), str(n.attribute), c)

    def e_IndexNode(self, n, c):
        return ast.Subscript(self.e(n.base), self.e(n.index), c)

    def e_SliceIndexNode(self, n, c):
        return ast.Subscript(self.e(n.base), self.loc(ast.Slice(self.e(n.start), self.e(n.stop), None), n), c)

    def e_SliceNode(self, n, c):
        def opt(x):
            return None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(opt(n.start), opt(n.stop), opt(n.step))

    def e_PrimaryCmpNode(self, n, c):
        ops, rest = [self.CMP[n.operator]()], [self.e(n.operand2)]
        k = n.cascade
        while k is not None:
            ops.append(self.CMP[k.operator]())
            rest.append(self.e(k.operand2))
            k = k.cascade
        return ast.Compare(self.e(n.operand1), ops, rest)

    def e_BoolBinopNode(self, n, c):
        return ast.BoolOp(ast.And() if n.operator == "and" else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n, c):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n, c):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_SimpleCallNode(self, n, c):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n, c):
        pos = n.positional_args
        if type(pos).__name__ != "TupleNode":
            raise AnalysisError("star arguments in Cython call (line %d)" % n.pos[1])
        kws = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ != "DictNode":
                raise AnalysisError("keyword star arguments in Cython call (line %d)" % n.pos[1])
            for it in n.keyword_args.key_value_pairs:
                kws.append(self.loc(ast.keyword(str(it.key.value), self.e(it.value)), n))
        return ast.Call(self.e(n.function), [self.e(a) for a in pos.args], kws)

    def e_IntNode(self, n, c):
        return ast.Constant(int(str(n.value).rstrip("uUlL"), 0))

    def e_FloatNode(self, n, c):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n, c):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, c):
        return ast.Constant(None)

    def e_NullNode(self, n, c):
        return ast.Name("NULL", ast.Load())

    def _str(self, n, c):
        return ast.Constant(str(n.value))
    e_UnicodeNode = e_StringNode = e_BytesNode = e_IdentifierStringNode = _str

    def e_JoinedStrNode(self, n, c):
        return ast.Constant("<formatted>")

    def e_TupleNode(self, n, c):
        return ast.Tuple([self.e(a, c) for a in n.args], c)

    def e_ListNode(self, n, c):
        return ast.List([self.e(a, c) for a in n.args], c)

    def e_TypecastNode(self, n, c):
        t = typestr(n.base_type, n.declarator)
        return ast.Call(self.loc(ast.Name("__cast__", ast.Load()), n), [self.loc(ast.Constant(t), n), self.e(n.operand)], [])

    def e_CondExprNode(self, n, c):
        return ast.IfExp(self.e(n.test), self.e(n.true_val), self.e(n.false_val))

    def e_AmpersandNode(self, n, c):
        return ast.Call(self.loc(ast.Name("__addr__", ast.Load()), n), [self.e(n.operand)], [])

    # statements
    def body(self, n):
        out = self.s(n)
        return out or [self.loc(ast.Pass(), n)]

    def s(self, n):
        if n is None:
            return []
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise AnalysisError("Cython statement %s not modelled (line %d)" % (k, n.pos[1]))
        r = f(n)
        return r if isinstance(r, list) else [self.loc(r, n)]

    def s_StatListNode(self, n):
        return [x for s in n.stats for x in self.s(s)]

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        return ast.Assign([self.e(n.lhs, ast.Store())], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.e(x, ast.Store()) for x in n.lhs_list], self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.e(n.lhs, ast.Store()), self.BIN[n.operator](), self.e(n.rhs))

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            b = d
            while type(b).__name__ != "CNameDeclaratorNode":
                b = b.base
            t = self.loc(ast.Constant(typestr(n.base_type, d)), n)
            v = getattr(b, "default", None) or getattr(d, "default", None)
            out.append(self.loc(ast.AnnAssign(self.loc(ast.Name(str(b.name), ast.Store()), n), t, self.e(v), 1), n))
        return out

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for cl in reversed(n.if_clauses):
            orelse = [self.loc(ast.If(self.e(cl.condition), self.body(cl.body), orelse), cl)]
        return orelse

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(getattr(n, "condition", None) or n.cond), None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type), None)

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value))

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = getattr(it, "sequence", it)
        return ast.For(self.e(n.target, ast.Store()), self.e(seq), self.body(n.body), self.body(n.else_clause) if n.else_clause else [])

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body), [])

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_CImportStatNode(self, n):
        return []
    s_FromCImportStatNode = s_CDefExternNode = s_CStructOrUnionDefNode = s_CTypeDefNode = s_CImportStatNode

    def s_DefNode(self, n):
        args, defaults = [], []
        types = {}
        for a in n.args:
            nm = decl_name(a.declarator)
            types[str(nm)] = typestr(a.base_type, a.declarator)
            if not nm:  # plain "scene": parsed as a type name
                nm = a.base_type.name
            args.append(self.loc(ast.arg(str(nm), self.loc(ast.Constant(typestr(a.base_type, a.declarator)), n)), n))
            if a.default is not None:
                defaults.append(self.e(a.default))
        f = ast.FunctionDef(str(n.name), ast.arguments([], args, None, [], [], None, defaults), self.body(n.body), [], None)
        f.cython = True
        return f

    def s_CFuncDefNode(self, n):
        fd = n.declarator
        while type(fd).__name__ != "CFuncDeclaratorNode":
            fd = fd.base
        args, defaults = [], []
        for a in fd.args:
            nm = decl_name(a.declarator) or a.base_type.name
            args.append(self.loc(ast.arg(str(nm), self.loc(ast.Constant(typestr(a.base_type, a.declarator)), n)), n))
            if a.default is not None:
                defaults.append(self.e(a.default))
        f = ast.FunctionDef(str(decl_name(fd)), ast.arguments([], args, None, [], [], None, defaults), self.body(n.body), [], None)
        f.cython = True
        return f


def to_python(repo):
    """Python ast.Module of the executable part of the Cython module"""
    t = tree(repo)
    c = Conv()
    body = []
    for n in walk(t):
        if type(n).__name__ in ("DefNode", "CFuncDefNode"):
            body += c.s(n)
    top = []
    for n in t.body.stats:
        for m in ([n] if type(n).__name__ != "StatListNode" else n.stats):
            if type(m).__name__ == "SingleAssignmentNode" and type(m.rhs).__name__ == "ImportNode":
                top.append(c.loc(ast.Import([ast.alias(str(m.rhs.module_name.value), str(m.lhs.name))]), m))
    m = ast.Module(top + body, [])
    return m
