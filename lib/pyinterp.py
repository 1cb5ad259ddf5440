"""Abstract interpreter for the Python (and translated Cython) sources of the repository.

Every path of an entry point is followed: conditions that are not decided by the facts known on the path split it,
assertions add facts, loops over symbolic ranges are an error.  Numbers and arrays live in the value-numbering domain
of pynum, objects and containers keep their identity, so aliasing and side effects are tracked exactly.
"""
import ast
import itertools
import os
from fractions import Fraction
from gvn import Graph, Node, AnalysisError, show
from pynum import Num, Arr, Buf, Opq, SymBool, ShapeMismatch


class PyRaise(Exception):
    def __init__(self, exc, site):
        self.exc, self.site = exc, site

    def __str__(self):
        return "%s at %s" % (self.exc, self.site)


class Infeasible(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Ext:
    """name from a library outside the repository"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Mod:
    def __init__(self, name, tree, path, package):
        self.name, self.tree, self.path, self.package = name, tree, path, package
        self.globals = {}
        self.defs = {}
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    def __init__(self, node, mod, closure=None, cls=None, kind="function", name=None):
        self.node, self.mod, self.closure, self.cls, self.kind = node, mod, closure, cls, kind
        self.name = name or getattr(node, "name", "<lambda>")

    def __repr__(self):
        return "<function %s>" % self.name


class Cls:
    def __init__(self, node, mod, bases):
        self.node, self.mod, self.bases, self.name = node, mod, bases, node.name
        self.members = {}
        self.dataclass = False
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Inst:
    n = 0

    def __init__(self, cls, label=None):
        Inst.n += 1
        self.id = Inst.n
        self.cls, self.attrs = cls, {}
        self.label = label or (cls.name if cls is not None else "object")
        self.havoc = None
        self.stores = []
        self.reads = []

    def __repr__(self):
        return "<%s#%d>" % (self.label, self.id)


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Method:
    """method of an abstract library object (array, string, dict...)"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PtrVal:
    def __init__(self, arr):
        self.arr = arr


class Null:
    def __repr__(self):
        return "NULL"


NULL = Null()


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return self.name


class Frame:
    def __init__(self, func, mod, closure, name):
        self.func, self.mod, self.closure, self.name = func, mod, closure, name
        self.vars = {}
        self.line = 0
        self.self_ = None


DTYPES = {"float64": "f8", "double": "f8", "double_t": "f8", "float": "f8", "float32": "f4", "uint32": "u4", "uint32_t": "u4", "int32": "i4", "uint8": "u1",
          "uint8_t": "u1", "int64": "i8", "uint64": "u8", "int": "i8", "intp": "i8", "bool": "b1", "bool_": "b1", "int_": "i8", "long": "i8", "float_": "f8"}
FLIPPED = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BUILTINS = {"len", "range", "int", "float", "bool", "str", "list", "tuple", "dict", "set", "max", "min", "abs", "sum", "zip", "enumerate", "print", "isinstance",
            "hasattr", "getattr", "setattr", "super", "type", "sorted", "reversed", "any", "all", "map", "filter", "repr", "round", "pow", "id", "callable",
            "iter", "next", "property", "staticmethod", "classmethod", "object", "vars", "slice", "divmod", "frozenset", "open", "__cast__", "__addr__"}
EXCEPTIONS = {"BaseException", "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "AssertionError",
              "AttributeError", "ImportError", "ZeroDivisionError", "StopIteration", "UserWarning", "DeprecationWarning", "Warning", "FileNotFoundError",
              "OSError", "ArithmeticError", "LookupError", "FutureWarning", "MemoryError", "SystemExit"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
              "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "AssertionError": "Exception", "AttributeError": "Exception",
              "ImportError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "Exception": "BaseException", "OSError": "Exception",
              "StopIteration": "Exception"}


class Program:
    """the repository's Python modules, parsed"""

    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.cyx = None

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name == "deodr.differentiable_renderer_cython":
            import pyx
            tree = pyx.to_python(self.repo)
            m = Mod(name, tree, pyx.path(self.repo), "deodr")
            m.extern = {n for n, _, _ in pyx.extern_functions(self.repo)}
        else:
            base = os.path.join(self.repo, *name.split("."))
            if os.path.isfile(base + ".py"):
                path, pkg = base + ".py", name.rpartition(".")[0]
            elif os.path.isfile(os.path.join(base, "__init__.py")):
                path, pkg = os.path.join(base, "__init__.py"), name
            else:
                return None
            with open(path, encoding="utf-8") as f:
                src = f.read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (path, e))
            m = Mod(name, tree, path, pkg)
            m.extern = set()
        self.mods[name] = m
        return m


class Interp:
    def __init__(self, prog, g, choices=()):
        self.prog, self.g = prog, g
        self.num = Num(g)
        self.pc = 1
        self.choices = list(choices)
        self.taken = []          # decisions on this path: (bdd, value, site)
        self.frames = []
        self.events = []
        self.native = None       # handler(interp, fname, args)
        self.hooks = {}          # qualified function name -> handler(interp, func, args, kwargs)
        self.extremes = {}       # node of an extremum of an array -> (max or min, array)
        self.coo_terms = {}      # terms of sparse matrices whose entries were listed
        self.ext_hooks = {}      # external name -> handler
        self.modstate = {}
        self.steps = 0
        self.unmodelled = set()
        self.isnone_cache = {}
        self.uid = itertools.count(1)
        self.split = True

    # ------------------------------------------------------------ control
    def site(self):
        if not self.frames:
            return "?"
        f = self.frames[-1]
        return "%s:%d" % (f.name, f.line)

    def decide(self, b):
        g = self.g
        if isinstance(b, bool):
            return b
        if b in (0, 1):
            return bool(b)
        if g.implies(self.pc, b):
            return True
        if g.b_and(self.pc, b) == 0:
            return False
        k = len(self.taken)
        v = self.choices[k] if k < len(self.choices) else True
        self.taken.append((b, v, self.site()))
        self.pc = g.b_and(self.pc, b if v else g.b_not(b))
        return v

    def assume(self, b):
        self.pc = self.g.b_and(self.pc, b)
        if self.pc == 0:
            raise Infeasible()

    def err(self, msg):
        return AnalysisError("%s (%s)" % (msg, self.site()))

    def raise_(self, name, *args):
        raise PyRaise(ExcVal(name, args), self.site())

    # ------------------------------------------------------------ modules
    def mod_globals(self, m):
        st = self.modstate.get(m.name)
        if st is None:
            st = self.modstate[m.name] = {}
            m_frame = Frame(None, m, None, m.name)
            m_frame.vars = st
            self.frames.append(m_frame)
            try:
                self.exec_module(m, m_frame)
            finally:
                self.frames.pop()
        return st

    def exec_module(self, m, fr):
        for n in m.tree.body:
            fr.line = getattr(n, "lineno", 0)
            if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Raise) and fr.vars is not None and m.package.startswith("deodr.tensorflow"):
                return
            if isinstance(n, ast.Expr):
                continue
            self.stmt(n)

    def import_module(self, name):
        m = self.prog.module(name)
        if m is None:
            return Ext(name)
        self.mod_globals(m)
        return m

    def get_global(self, m, name):
        st = self.mod_globals(m)
        if name in st:
            return st[name]
        sub = self.prog.module(m.name + "." + name) if m.package == m.name else None
        if sub is not None:
            return self.import_module(sub.name)
        return None

    # ------------------------------------------------------------ statements
    def block(self, body):
        for n in body:
            self.stmt(n)

    def stmt(self, n):
        self.steps += 1
        if self.steps > 400000:
            raise self.err("too many steps")
        fr = self.frames[-1]
        fr.line = getattr(n, "lineno", fr.line)
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            raise self.err("statement %s not modelled" % type(n).__name__)
        f(n)

    def s_Pass(self, n):
        pass

    def s_Expr(self, n):
        self.ev(n.value)

    def s_Import(self, n):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.frames[-1].vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                self.frames[-1].vars[top] = self.import_module(top)

    def s_ImportFrom(self, n):
        m = self.frames[-1].mod
        if n.level:
            parts = m.package.split(".") if m.package else []
            if n.level > 1:
                parts = parts[:-(n.level - 1)]
            base = ".".join(parts + (n.module.split(".") if n.module else []))
        else:
            base = n.module
        src = self.prog.module(base)
        for a in n.names:
            if src is None:
                v = Ext(base + "." + a.name)
            else:
                v = self.get_global(src, a.name)
                if v is None:
                    sub = self.prog.module(base + "." + a.name)
                    v = self.import_module(sub.name) if sub is not None else Ext(base + "." + a.name)
            self.frames[-1].vars[a.asname or a.name] = v

    def s_FunctionDef(self, n):
        fr = self.frames[-1]
        f = Func(n, fr.mod, fr if fr.func is not None else None)
        v = f
        for d in reversed(n.decorator_list):
            t = ast.unparse(d)
            if t in ("staticmethod", "classmethod", "property"):
                f.kind = t
            elif t.endswith(".setter"):
                f.kind = "setter"
            elif t == "overload" or t.endswith(".overload"):
                return
            elif t.startswith(("cython.", "functools.", "lru_cache", "tf.", "torch.no_grad", "typing.", "abstractmethod", "jit", "njit")):
                pass
            else:
                raise self.err("decorator " + t)
        fr.vars[n.name] = v

    s_AsyncFunctionDef = None

    def s_ClassDef(self, n):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in n.bases]
        c = Cls(n, fr.mod, bases)
        for d in n.decorator_list:
            t = ast.unparse(d)
            if t.startswith("dataclass"):
                c.dataclass = True
            else:
                raise self.err("class decorator " + t)
        cf = Frame(None, fr.mod, fr if fr.func is not None else None, fr.mod.name + "." + n.name)
        cf.cls_fields = []
        self.frames.append(cf)
        setters = {}
        try:
            for s in n.body:
                cf.line = s.lineno
                if isinstance(s, ast.AnnAssign):
                    v = self.ev(s.value) if s.value is not None else None
                    c.fields.append((s.target.id, s.value is not None, v))
                    if s.value is not None:
                        cf.vars[s.target.id] = v
                    continue
                if isinstance(s, ast.Expr):
                    continue
                if isinstance(s, ast.FunctionDef) and any(ast.unparse(d).endswith(".setter") for d in s.decorator_list):
                    f = Func(s, fr.mod, None)
                    f.cls = c
                    setters[s.name] = f
                    continue
                self.stmt(s)
        finally:
            self.frames.pop()
        for k, v in cf.vars.items():
            if isinstance(v, Func):
                v.cls = c
                v.closure = fr if fr.func is not None else None
            c.members[k] = v
        c.setters = setters
        fr.vars[n.name] = c

    def s_Return(self, n):
        raise _Return(self.ev(n.value) if n.value is not None else None)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))
        elif isinstance(n.target, ast.Name) and isinstance(n.annotation, ast.Constant) and n.annotation.value == "Scene":
            self.frames[-1].vars[n.target.id] = Inst(None, "Scene")

    def s_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()))
            self.frames[-1].line = n.lineno
            new = self.inplace(old, n.op, self.ev(n.value))
            if new is not old:
                self.store_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            new = self.inplace(old, n.op, self.ev(n.value))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.index(t.slice)
            old = self.getitem(o, k)
            v = self.ev(n.value)
            if isinstance(o, Arr):
                new = self.binop(n.op, old, v)
                self.setitem(o, k, new, kind="accumulate")
            else:
                new = self.inplace(old, n.op, v)
                self.setitem(o, k, new)
        else:
            raise self.err("augmented assignment")

    def inplace(self, old, op, v):
        if isinstance(old, Arr):
            new = self.binop(op, old, v)
            if isinstance(new, Arr) and new.ndim > old.ndim:
                self.raise_("ValueError", "non-broadcastable output operand")
            self.num.write(old, new, self.site(), kind="inplace")
            return old
        if isinstance(old, list) and isinstance(op, ast.Add):
            old.extend(self.iterate(v))
            return old
        return self.binop(op, old, v)

    def s_If(self, n):
        if self.truth(self.ev(n.test)):
            self.block(n.body)
        else:
            self.block(n.orelse)

    def s_Assert(self, n):
        v = self.ev(n.test)
        b = self.truth_bdd(v)
        if b == 0 or self.g.b_and(self.pc, b) == 0:
            self.raise_("AssertionError", ast.unparse(n.test))
        self.events.append(("assert", b, self.site(), ast.unparse(n.test)))
        self.assume(b)

    def s_Raise(self, n):
        if n.exc is None:
            self.raise_("Exception")
        e = self.ev(n.exc)
        if isinstance(e, Ext):
            e = ExcVal(e.path.split(".")[-1])
        raise PyRaise(e, self.site())

    def s_For(self, n):
        it = self.ev(n.iter)
        broke = False
        for x in self.iterate(it):
            self.assign(n.target, x)
            try:
                self.block(n.body)
            except _Continue:
                continue
            except _Break:
                broke = True
                break
        if not broke:
            self.block(n.orelse)

    def s_While(self, n):
        k = 0
        while self.truth(self.ev(n.test)):
            k += 1
            if k > 64:
                raise self.err("while loop does not terminate in the analysis")
            try:
                self.block(n.body)
            except _Continue:
                continue
            except _Break:
                return
        self.block(n.orelse)

    def s_Break(self, n):
        raise _Break()

    def s_Continue(self, n):
        raise _Continue()

    def s_Global(self, n):
        raise self.err("global statement")

    def s_Nonlocal(self, n):
        raise self.err("nonlocal statement")

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if isinstance(o, dict):
                    o.pop(self.key(self.index(t.slice)), None)
                else:
                    raise self.err("del")

    def s_With(self, n):
        for i in n.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(n.body)

    def s_Try(self, n):
        try:
            self.block(n.body)
        except PyRaise as e:
            nm = e.exc.name if isinstance(e.exc, ExcVal) else str(e.exc)
            for h in n.handlers:
                if h.type is None or self.exc_matches(nm, self.ev(h.type)):
                    if h.name:
                        self.frames[-1].vars[h.name] = e.exc
                    self.block(h.body)
                    break
            else:
                self.block(n.finalbody)
                raise
        else:
            self.block(n.orelse)
        self.block(n.finalbody)

    def exc_matches(self, nm, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            want = x.path.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", "?")
            k = nm
            while k is not None:
                if k == want:
                    return True
                k = EXC_PARENT.get(k)
        return False

    # ------------------------------------------------------------ assignment
    def store_name(self, name, v):
        self.frames[-1].vars[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vs = list(self.iterate(v, len(t.elts) if not stars else None))
            if stars:
                i = stars[0]
                k = len(vs) - (len(t.elts) - 1)
                vs = vs[:i] + [vs[i:i + k]] + vs[i + k:]
            if len(vs) != len(t.elts):
                self.raise_("ValueError", "unpacking")
            for a, b in zip(t.elts, vs):
                self.assign(a.value if isinstance(a, ast.Starred) else a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v)
        else:
            raise self.err("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if o.cls is not None:
                for c in o.cls.mro():
                    s = getattr(c, "setters", {}).get(name)
                    if s is not None:
                        self.call_func(s, [o, v], {})
                        return
                m, c = o.cls.find(name)
                if isinstance(m, Func) and m.kind == "property":
                    self.raise_("AttributeError", name)
            o.attrs[name] = v
            o.stores.append((name, self.site()))
            self.events.append(("setattr", o, name, v, self.site()))
        elif isinstance(o, Mod):
            self.mod_globals(o)[name] = v
        elif isinstance(o, Cls):
            o.members[name] = v
        elif isinstance(o, Func):
            pass
        else:
            raise self.err("attribute %s of %r set" % (name, o))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        return self.decide(self.truth_bdd(v))

    def truth_bdd(self, v):
        g = self.g
        if v is None:
            return 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, SymBool):
            return v.b
        if isinstance(v, (int, float, Fraction)):
            return int(v != 0)
        if isinstance(v, Node):
            return g.tobdd(v)
        if isinstance(v, (str, list, tuple, dict, set)):
            return int(len(v) > 0)
        if isinstance(v, Arr):
            if v.ndim == 0 or all(self.num.is1(d) for d in v.dims):
                x = self.num.at(v, tuple((0,) * len(d) for d in v.dims))
                return g.tobdd(x)
            self.raise_("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Opq):
            return g.b_atom("truth", v.node)
        if isinstance(v, (Inst, Func, Cls, Mod, Bound, Method, Ext)):
            return 1
        raise self.err("truth of %r" % (v,))

    def sb(self, b):
        return bool(b) if b in (0, 1) else SymBool(b)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, n=None):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (range, str, set, frozenset)):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.raise_("TypeError", "iteration over a 0-d array")
            d = self.num.dimval(v.dims[0])
            if not isinstance(d, int):
                raise self.err("iteration over a symbolic dimension")
            return [self.getitem(v, k) for k in range(d)]
        if isinstance(v, Opq) and n is not None:
            return [self.opq_item(v, k) for k in range(n)]
        if hasattr(v, "__next__"):
            return list(v)
        raise self.err("iteration over %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise self.err("expression %s not modelled" % type(n).__name__)
        return f(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if n.id in f.vars:
                return f.vars[n.id]
            f = f.closure
        st = self.modstate.get(fr.mod.name, {})
        if n.id in st:
            return st[n.id]
        if n.id in fr.mod.extern:
            return Ext("native." + n.id)
        if n.id == "NULL":
            return NULL
        if n.id in BUILTINS or n.id in EXCEPTIONS:
            return Ext("builtins." + n.id)
        if n.id in ("__name__",):
            return fr.mod.name
        if n.id in ("__file__",):
            return fr.mod.path
        if any(isinstance(x, (ast.Name,)) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in (ast.walk(fr.func.node) if fr.func is not None else ())):
            self.raise_("UnboundLocalError", n.id)
        raise self.err("unknown name %s" % n.id)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        self.frames[-1].line = n.lineno
        return self.getattr(o, n.attr)

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def e_List(self, n):
        return list(self.elts(n.elts))

    def e_Set(self, n):
        return set(self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.key(self.ev(k))] = self.ev(v)
        return d

    def key(self, k):
        if isinstance(k, Node):
            k = self.num.py(k)
        return k

    def e_JoinedStr(self, n):
        return "<formatted>"

    def e_Lambda(self, n):
        fr = self.frames[-1]
        return Func(n, fr.mod, fr, name="<lambda>")

    def e_IfExp(self, n):
        return self.ev(n.body) if self.truth(self.ev(n.test)) else self.ev(n.orelse)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for k, x in enumerate(n.values[1:]):
            b = self.truth_bdd(v) if not (isinstance(v, Arr)) else self.truth_bdd(v)
            known = b if b in (0, 1) else 1 if self.g.implies(self.pc, b) else 0 if self.g.b_and(self.pc, b) == 0 else None
            if known is not None:
                if bool(known) != isand:
                    return v
                v = self.ev(x)
                continue
            # undecided left operand: evaluate the right one under its own condition
            pc, nt, ne = self.pc, len(self.taken), len(self.events)
            try:
                self.pc = self.g.b_and(pc, b if isand else self.g.b_not(b))
                w = self.ev(x)
                if len(self.taken) != nt or not isinstance(v, (bool, SymBool)) or not isinstance(w, (bool, SymBool)):
                    raise _Split()
                self.pc = pc
                wb = self.truth_bdd(w)
                v = self.sb(self.g.b_and(b, wb) if isand else self.g.b_or(b, wb))
            except (_Split, PyRaise):
                self.pc = pc
                del self.taken[nt:]
                del self.events[ne:]
                if self.decide(b) != isand:
                    return v
                v = self.ev(x)
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return self.sb(self.g.b_not(self.truth_bdd(v)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                return -v
            return self.elementwise(self.g.neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == "b1" or isinstance(v, SymBool):
                return self.elementwise(lambda a: self.g.boolnode(self.g.b_not(self.g.tobdd(a))), v, dtype="b1")
            if isinstance(v, int):
                return ~v
        raise self.err("unary operator")

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.frames[-1].line = n.lineno
        return self.binop(n.op, a, b)

    def elementwise(self, f, *vals, dtype=None):
        if any(isinstance(v, Opq) and v.kind != "num" for v in vals):
            g = self.g     # named by what is computed from the operands
            try:
                what = f(*[g.sym("operand%d" % k) for k in range(len(vals))])
            except AnalysisError:
                what = g.sym("ew:%d" % next(self.num.fresh))
            return Opq(g.fn("opq:ew", [what] + [self.term(v) for v in vals]), "elementwise", vals)
        try:
            return self.num.ew(f, *vals, dtype=dtype)
        except ShapeMismatch as e:
            self.raise_("ValueError", str(e))

    def term(self, v):
        """a node naming any value (for opaque operations)"""
        g = self.g
        if isinstance(v, Opq):
            return v.node
        if isinstance(v, Arr):
            return g.fn("arr", [self.num.node(x) for d in v.dims for x in d] + [self.generic(v)])
        if v is None:
            return g.sym("None")
        if isinstance(v, str):
            return g.sym("str:" + v)
        if isinstance(v, (tuple, list)):
            return g.fn("seq", [self.term(x) for x in v])
        if isinstance(v, dict):
            return g.fn("dict", [self.term(x) for p in sorted(v.items(), key=lambda p: str(p[0])) for x in p])
        if isinstance(v, Ext):
            return g.sym("ext:" + v.path)
        if isinstance(v, Inst):
            return g.sym("obj:%s:%d" % (v.label, v.id))
        if isinstance(v, (Func, Cls, Bound, Method)):
            return g.sym("callable:%r" % (v,))
        return self.num.node(v)

    def generic(self, a):
        """value of an array at a generic index"""
        idx = tuple(tuple(self.g.sym("gen:%d:%d" % (k, j), True) if not (isinstance(x, int) and x == 1) else 0 for j, x in enumerate(d)) for k, d in enumerate(a.dims))
        return self.num.at(a, idx)

    def binop(self, op, a, b):
        g, num = self.g, self.num
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            x = Fraction(repr(a)) if isinstance(a, float) else a
            y = Fraction(repr(b)) if isinstance(b, float) else b
            k = type(op)
            try:
                r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: Fraction(x) / Fraction(y),
                     ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y, ast.Pow: lambda: x ** y, ast.BitAnd: lambda: x & y, ast.BitOr: lambda: x | y,
                     ast.BitXor: lambda: x ^ y, ast.LShift: lambda: x << y, ast.RShift: lambda: x >> y}[k]()
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
            except TypeError:
                raise self.err("operator on constants")
            if isinstance(r, Fraction) and r.denominator == 1 and k is not ast.Div:
                r = int(r)
            return r
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return "<formatted>"
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            return "<formatted>"
        if isinstance(op, ast.Add) and isinstance(a, (list, tuple)) and isinstance(b, type(a)):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, tuple)) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mult) and isinstance(b, (list, tuple)) and isinstance(a, int):
            return b * a
        if isinstance(a, Opq) and a.kind != "num" or isinstance(b, Opq) and b.kind != "num":
            return Opq(g.fn("opq:" + type(op).__name__, [self.term(a), self.term(b)]), type(op).__name__, (a, b))
        for x in (a, b):
            if x is None:
                self.raise_("TypeError", "unsupported operand None")
        sp = isinstance(a, Arr) and a.sparse or isinstance(b, Arr) and b.sparse
        mx = isinstance(a, Arr) and a.matrix or isinstance(b, Arr) and b.matrix
        try:
            if isinstance(op, ast.MatMult) or isinstance(op, ast.Mult) and (sp or mx) and isinstance(a, Arr) and isinstance(b, Arr):
                return self.matmul(a, b)
            if isinstance(op, ast.Add):
                r = self.elementwise(g.add, a, b)
            elif isinstance(op, ast.Sub):
                r = self.elementwise(g.sub, a, b)
            elif isinstance(op, ast.Mult):
                r = self.elementwise(g.mul, a, b)
            elif isinstance(op, ast.Div):
                r = self.elementwise(g.div, a, b, dtype="f8")
            elif isinstance(op, ast.Pow):
                r = self.elementwise(lambda x, y: self.power(x, y), a, b)
            elif isinstance(op, ast.FloorDiv):
                r = self.elementwise(lambda x, y: g.fn("floordiv", (x, y), isint=True), a, b)
            elif isinstance(op, ast.Mod):
                r = self.elementwise(lambda x, y: g.fn("mod", (x, y), isint=True), a, b)
            elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                def bit(x, y):
                    p, q = g.tobdd(x), g.tobdd(y)
                    return g.boolnode(g.b_and(p, q) if isinstance(op, ast.BitAnd) else g.b_or(p, q) if isinstance(op, ast.BitOr) else g.ite(p, g.b_not(q), q))
                r = self.elementwise(bit, a, b, dtype="b1")
            else:
                raise self.err("operator %s" % type(op).__name__)
        except ShapeMismatch as e:
            self.raise_("ValueError", str(e))
        if isinstance(r, Arr) and sp:
            r.sparse = True
        return r

    def power(self, x, y):
        g = self.g
        if y.op != "const":
            return g.fn("opaque:pow", (x, y))
        v = y.val
        if v.denominator == 1 and abs(v) <= 8:
            r = g.ONE
            for _ in range(abs(int(v))):
                r = g.mul(r, x)
            return r if v >= 0 else g.recip(r)
        if v == Fraction(1, 2):
            return g.sqrt(x)
        if v == Fraction(-1, 2):
            return g.recip(g.sqrt(x))
        if v == Fraction(3, 2):
            return g.mul(x, g.sqrt(x))
        return g.fn("opaque:pow", (x, y))

    def matmul(self, a, b):
        try:
            r = self.num.matmul(a, b)
        except ShapeMismatch as e:
            self.raise_("ValueError", str(e))
        if isinstance(r, Arr) and r.ndim == 0:
            return self.num.scalar(r)
        return r

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            r = self.compare(op, left, right)
            res = r if res is None else self.sb(self.g.b_and(self.truth_bdd(res), self.truth_bdd(r)))
            left = right
        return res

    def red(self, how, a):
        from pymodels import reduce_
        return reduce_(self, how, a)

    def isnone(self, v):
        if v is None:
            return 1
        if isinstance(v, Opq):
            return self.g.b_atom("isnone", v.node)
        return 0

    def compare(self, op, a, b):
        g, num = self.g, self.num
        for x, y, o in ((a, b, op), (b, a, FLIPPED.get(type(op), ast.Eq)())):
            e = self.extremes.get(x.nid) if isinstance(x, Node) else None
            if e is not None and isinstance(y, (int, float, Fraction, Node)):
                # an extremum compares like all (or some) of the elements
                how, arr = e
                if isinstance(o, (ast.Lt, ast.LtE) if how == "max" else (ast.Gt, ast.GtE)):
                    return self.red("all", self.compare(o, arr, y))
                if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    return self.red("any", self.compare(o, arr, y))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                x = self.isnone(a if b is None else b)
            elif isinstance(a, (bool, SymBool)) and isinstance(b, bool):
                x = num.bdd(a) if b else g.b_not(num.bdd(a))
            else:
                x = int(a is b or (isinstance(a, Ext) and a == b))
            return self.sb(x if isinstance(op, ast.Is) else g.b_not(x))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (dict, list, tuple, set, str, range, frozenset)):
                if isinstance(b, dict) or isinstance(a, (str, int, type(None))) and all(isinstance(x, (str, int, type(None))) for x in b):
                    x = self.key(a) in b
                else:
                    x = 0
                    for y in b:
                        x = g.b_or(x, self.truth_bdd(self.compare(ast.Eq(), a, y)))
                return self.sb(x if isinstance(op, ast.In) else g.b_not(int(x) if isinstance(x, bool) else x))
            raise self.err("membership test")
        if isinstance(a, (PtrVal, Null)) or isinstance(b, (PtrVal, Null)):
            same = isinstance(a, Null) and isinstance(b, Null)
            return same if isinstance(op, ast.Eq) else not same
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, type(None))) or isinstance(y, (type(None),)):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    if isinstance(x, Opq) or isinstance(y, Opq):
                        q = g.b_atom("eq:", g.fn("cmp", (self.term(x), self.term(y))))
                        return self.sb(q if isinstance(op, ast.Eq) else g.b_not(q))
                    return (x == y) == isinstance(op, ast.Eq)
                self.raise_("TypeError", "comparison")
        if isinstance(a, Ext) or isinstance(b, Ext):
            da, db = self.dtype_of(a), self.dtype_of(b)
            if da is not None and db is not None:
                return (da == db) == isinstance(op, ast.Eq)
            q = g.b_atom("eq:", g.fn("cmp", (self.term(a), self.term(b))))
            return self.sb(q if isinstance(op, ast.Eq) else g.b_not(q))
        if isinstance(a, Dtype) or isinstance(b, Dtype):
            da, db = self.dtype_of(a), self.dtype_of(b)
            return (da == db) == isinstance(op, ast.Eq)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if len(a) != len(b):
                    r = 0
                else:
                    r = 1
                    for x, y in zip(a, b):
                        r = g.b_and(r, self.truth_bdd(self.compare(ast.Eq(), x, y)))
                return self.sb(r if isinstance(op, ast.Eq) else g.b_not(r))
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and x.kind == "shape" and isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(y, tuple):
                    r = g.b_eq0(g.sub(g.fn("ndim", (x.args[0].node,), isint=True), g.const(len(y))))
                    for k, z in enumerate(y):
                        r = g.b_and(r, num.eq(self.opq_item(x, k), num.node(z)))
                    return self.sb(r if isinstance(op, ast.Eq) else g.b_not(r))
                if isinstance(y, Opq) and y.kind == "shape":
                    # same rank and same extents; extents of the other array become usable through both
                    r = g.b_atom("sameshape", g.fn("pair", sorted((x.args[0].node, y.args[0].node), key=lambda n: n.nid)))
                    for k in range(4):
                        r = g.b_and(r, num.eq(self.opq_item(x, k), self.opq_item(y, k)))
                    r = g.b_and(r, num.eq(self.getattr(x.args[0], "ndim"), self.getattr(y.args[0], "ndim")))
                    return self.sb(r if isinstance(op, ast.Eq) else g.b_not(r))
        if isinstance(a, Opq) and a.kind != "num" or isinstance(b, Opq) and b.kind != "num":
            return Opq(g.fn("cmp:" + type(op).__name__, [self.term(a), self.term(b)]), "cmp " + type(op).__name__, (a, b), "bool")
        if isinstance(a, (Inst, Func, Cls)) or isinstance(b, (Inst, Func, Cls)):
            return (a is b) == isinstance(op, ast.Eq)

        def f(x, y):
            if isinstance(op, ast.Lt):
                r = num.lt(x, y)
            elif isinstance(op, ast.Gt):
                r = num.lt(y, x)
            elif isinstance(op, ast.LtE):
                r = g.b_not(num.lt(y, x))
            elif isinstance(op, ast.GtE):
                r = g.b_not(num.lt(x, y))
            else:
                r = num.eq(x, y)
                if isinstance(op, ast.NotEq):
                    r = g.b_not(r)
            return g.boolnode(r)
        r = self.elementwise(f, a, b, dtype="b1")
        if isinstance(r, Node):
            r = self.sb(g.tobdd(r))
        elif isinstance(r, int) and not isinstance(r, bool):
            r = bool(r)
        return r

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.index(n.slice)
        self.frames[-1].line = n.lineno
        return self.getitem(o, k)

    def index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.ev(s)

    def e_Slice(self, n):
        return slice(*[self.ev(x) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def comp(self, n, emit):
        fr = self.frames[-1]
        saved = dict(fr.vars)

        def rec(gens):
            if not gens:
                emit()
                return
            c = gens[0]
            for x in self.iterate(self.ev(c.iter)):
                self.assign(c.target, x)
                if all(self.truth(self.ev(i)) for i in c.ifs):
                    rec(gens[1:])
        rec(n.generators)
        for k in list(fr.vars):
            if k not in saved:
                del fr.vars[k]
        fr.vars.update(saved)

    def e_ListComp(self, n):
        out = []
        self.comp(n, lambda: out.append(self.ev(n.elt)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return set(self.e_ListComp(n))

    def e_DictComp(self, n):
        out = {}

        def emit():
            k = self.key(self.ev(n.key))
            out[k] = self.ev(n.value)
        self.comp(n, emit)
        return out

    def e_Starred(self, n):
        raise self.err("starred expression")

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            return Super(fr.func.cls, fr.self_)
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value))
            else:
                kw[k.arg] = self.ev(k.value)
        self.frames[-1].line = n.lineno
        return self.call(f, args, kw)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            if name in o.attrs:
                o.reads.append(name)
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if o.cls is not None:
                m, c = o.cls.find(name)
                if c is not None:
                    return self.bind(m, o)
                ex = [b for c in o.cls.mro() for b in c.bases if isinstance(b, Ext)]
            else:
                ex = []
            if o.havoc is not None:
                v = o.havoc(name)
                if v is not NotImplemented:
                    o.attrs[name] = v
                    o.reads.append(name)
                    return v
            if any(not e.path.startswith(("typing", "builtins.object")) for e in ex):
                return Method(o, name)
            self.raise_("AttributeError", name, o.label)
        if isinstance(o, Super):
            mro = o.self_.cls.mro() if isinstance(o.self_, Inst) else o.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.members:
                    return self.bind(c.members[name], o.self_)
            return Method(o, name)
        if isinstance(o, Cls):
            m, c = o.find(name)
            if c is not None:
                return m
            if name == "__name__":
                return o.name
            return Method(o, name)
        if isinstance(o, Mod):
            v = self.get_global(o, name)
            if v is None:
                if name in self.mod_globals(o):
                    return None
                if name in o.extern:
                    return Ext("native." + name)
                self.raise_("AttributeError", name)
            return v
        if isinstance(o, Ext):
            v = self.ext_const(o.path + "." + name)
            return v if v is not None else Ext(o.path + "." + name)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Opq):
            return self.opq_attr(o, name)
        if isinstance(o, (str, list, dict, tuple, set)):
            return Method(o, name)
        if isinstance(o, (int, float, Fraction, Node, SymBool)):
            if name in ("shape",):
                return ()
            if name == "ndim":
                return 0
            if name == "T":
                return o
            return Method(o, name)
        if o is None:
            self.raise_("AttributeError", "'NoneType' object has no attribute %r" % name)
        if isinstance(o, Bound) or isinstance(o, Func):
            if name == "__name__":
                return "f"
        if isinstance(o, (ExcVal,)):
            return Method(o, name)
        raise self.err("attribute %s of %r" % (name, o))

    def bind(self, m, o):
        if isinstance(m, Func):
            if m.kind == "property":
                return self.call_func(m, [o], {})
            if m.kind == "staticmethod":
                return m
            if m.kind == "classmethod":
                return Bound(m, o.cls if isinstance(o, Inst) else o)
            return Bound(m, o)
        return m

    def opq_attr(self, o, name):
        g = self.g
        if name == "shape":
            return Opq(g.fn("shape", (o.node,)), o.label + ".shape", (o,), "shape")
        if name == "ndim":
            return g.fn("ndim", (o.node,), isint=True)
        if name == "size":
            return g.fn("size", (o.node,), isint=True)
        if name == "dtype":
            return Opq(g.fn("dtype", (o.node,)), o.label + ".dtype", (o,), "dtype")
        if name == "data":
            return PtrVal(o)
        if o.kind == "array":
            return Method(o, name)
        if o.kind == "object":
            return Opq(g.fn("attr:" + name, (o.node,)), o.label + "." + name, (o,))
        return Method(o, name)

    def opq_item(self, o, k):
        g = self.g
        if o.kind == "shape":
            if isinstance(k, slice) and isinstance(k.stop, int) and k.stop > 0 and k.start in (None, 0) and k.step in (None, 1):
                return tuple(self.opq_item(o, j) for j in range(k.stop))
            if isinstance(k, slice):
                return Opq(g.fn("slice", [self.term(x) for x in (o, k.start, k.stop)]), o.label + "[:]", (o,), None)
            return g.fn("shape", (o.args[0].node, self.num.node(k)), isint=True)
        return Opq(g.fn("item", (o.node, self.term_index(k))), "%s[...]" % o.label, (o, k), "array" if o.kind == "array" else None)

    def term_index(self, k):
        if isinstance(k, slice):
            return self.g.fn("slice", [self.term(x) for x in (k.start, k.stop, k.step)])
        if isinstance(k, tuple):
            return self.g.fn("seq", [self.term_index(x) for x in k])
        return self.term(k)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                return o[k]
            k = self.key(k)
            if isinstance(k, Node):
                raise self.err("symbolic index into a sequence")
            if isinstance(k, Arr) and k.ndim == 0:
                k = self.num.scalar(k)
            try:
                return o[k]
            except IndexError:
                self.raise_("IndexError")
        if isinstance(o, str):
            return o[k]
        if isinstance(o, dict):
            k = self.key(k)
            if k not in o:
                hv = getattr(o, "havoc", None)
                if hv is not None:
                    o[k] = hv(k)
                    return o[k]
                self.raise_("KeyError", k)
            return o[k]
        if isinstance(o, Opq):
            return self.opq_item(o, k)
        if isinstance(o, Arr):
            try:
                return self.arr_get(o, k)
            except ShapeMismatch as e:
                self.raise_("IndexError", str(e))
        if isinstance(o, (Ext, Cls)):
            return o      # typing generics
        if o is None:
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        raise self.err("subscript of %r" % (o,))

    def setitem(self, o, k, v, kind="store"):
        if isinstance(o, list):
            try:
                o[self.key(k)] = v
            except IndexError:
                self.raise_("IndexError")
            return
        if isinstance(o, dict):
            o[self.key(k)] = v
            self.events.append(("setitem", o, self.key(k), v, self.site()))
            return
        if isinstance(o, Arr):
            try:
                self.arr_set(o, k, v, kind)
            except ShapeMismatch as e:
                self.raise_("ValueError", str(e))
            return
        if isinstance(o, Opq):
            self.events.append(("opaque-write", o, self.site()))
            return
        raise self.err("subscript store into %r" % (o,))

    def norm_index(self, a, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        n = sum(1 for x in ks if x is not None and x is not Ellipsis and not (isinstance(x, Ext) and x.path.endswith(".newaxis")))
        for i, x in enumerate(ks):
            if isinstance(x, Arr) and x.dtype == "b1" and x.ndim > 1:
                n += x.ndim - 1
        if n > a.ndim:
            self.raise_("IndexError", "too many indices")
        if any(x is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            ks[i:i + 1] = [slice(None)] * (a.ndim - n)
        else:
            ks += [slice(None)] * (a.ndim - n)
        return ks

    def is_advanced(self, x):
        return isinstance(x, list) or isinstance(x, Arr) and x.ndim > 0 or isinstance(x, range)

    def basic(self, a, ks):
        """apply the basic part of an index: returns (view, [(view axis, advanced index)])"""
        num = self.num
        v = a
        ax = 0
        adv = []
        for x in ks:
            if x is None or isinstance(x, Ext) and x.path.endswith(".newaxis"):
                v = num.expand(v, ax)
                ax += 1
            elif isinstance(x, slice):
                v = num.slice(v, ax, (x.start, x.stop, x.step))
                ax += 1
            elif self.is_advanced(x):
                x = num.arr(list(x)) if not isinstance(x, Arr) else x
                adv.append((ax, x))
                ax += x.ndim if x.dtype == "b1" else 1
            else:
                if isinstance(x, Arr):
                    x = num.scalar(x)
                if isinstance(x, (bool, SymBool)):
                    raise self.err("boolean index")
                d = v.dims[ax]
                N = num.dimval(d)
                i = num.py(num.node(x))
                if isinstance(i, int):
                    if isinstance(N, int) and not -N <= i < N:
                        self.raise_("IndexError", "index %d out of bounds" % i)
                    if i < 0:
                        i = num.py(self.g.add(num.node(N), self.g.const(i)))
                if len(d) != 1:
                    i = num.reindex((i,), (N,), d)
                    v = num.fix(v, ax, i)
                elif v.matrix:
                    v = num.slice(v, ax, (i, num.py(self.g.add(num.node(i), self.g.ONE)), None))
                    ax += 1
                else:
                    v = num.fix(v, ax, (i,))
        return v, adv

    def wrapneg(self, n, N):
        """numpy's treatment of negative indices, applied to constants only"""
        v = self.num.py(n)
        if isinstance(v, int) and v < 0:
            return self.g.add(self.num.node(N), n)
        return n

    def arr_get(self, a, k):
        g, num = self.g, self.num
        ks = self.norm_index(a, k)
        v, adv = self.basic(a, ks)
        if not adv:
            if v.ndim == 0:
                return num.scalar(v)
            return v
        if len(adv) == 1 and adv[0][1].dtype == "b1":
            return self.mask_get(v, *adv[0])
        if any(x.dtype == "b1" for _, x in adv):
            raise self.err("mixed boolean index")
        # advanced integer indices
        nd = max(x.ndim for _, x in adv)
        idims = [(1,)] * nd
        for _, x in adv:
            for q, d in enumerate(x.dims):
                idims[nd - x.ndim + q] = num.bdims(idims[nd - x.ndim + q], d)
        axes = [ax for ax, _ in adv]
        contiguous = axes == list(range(axes[0], axes[0] + len(axes)))
        first = axes[0] if contiguous else 0
        rest = [q for q in range(v.ndim) if q not in axes]
        before = [q for q in rest if contiguous and q < first]
        after = [q for q in rest if q not in before]
        dims = [v.dims[q] for q in before] + idims + [v.dims[q] for q in after]
        r = num.reader(v)
        rx = [(num.reader(x), x) for _, x in adv]
        nb = len(before)

        def content(idx):
            ii = idx[nb:nb + nd]
            full = [None] * v.ndim
            for q, i in zip(before, idx[:nb]):
                full[q] = i
            for q, i in zip(after, idx[nb + nd:]):
                full[q] = i
            for q, (rr, x) in zip(axes, rx):
                sub = tuple((0,) * len(d) if num.is1(d) else ii[nd - x.ndim + z] if len(d) == len(ii[nd - x.ndim + z]) else
                            num.reindex(ii[nd - x.ndim + z], idims[nd - x.ndim + z], d) for z, d in enumerate(x.dims))
                val = num.py(self.wrapneg(rr(sub), num.dimval(v.dims[q])))
                full[q] = (val,) if len(v.dims[q]) == 1 else num.reindex((val,), (num.dimval(v.dims[q]),), v.dims[q])
            return r(tuple(full))
        out = num.array(a.buf.label + "[]", dims, num.memo(content), a.dtype)
        out.wrapper = a.wrapper
        return out

    def mask_get(self, v, ax, mask):
        num, g = self.num, self.g
        m = mask.ndim
        t = self.term(mask)
        N = g.fn("count", (t,), isint=True)
        r = num.reader(v)
        dims = v.dims[:ax] + [num.dim(N)] + v.dims[ax + m:]

        def content(idx):
            i = num.node(idx[ax][0])
            inner = tuple((g.fn("nz:%d" % q, (t, i), isint=True),) for q in range(m))
            return r(idx[:ax] + inner + idx[ax + 1:])
        return num.array(v.buf.label + "[mask]", dims, num.memo(content), v.dtype)

    def spread(self, v, ax, mask, val):
        """values stored through a mask, as an array over all elements: where the mask selects element i as its k-th, the k-th value"""
        num, g = self.num, self.g
        m = mask.ndim
        t = self.term(mask)
        if not num.same_dim(val.dims[ax], num.dim(g.fn("count", (t,), isint=True))):
            raise ShapeMismatch("values stored through a boolean mask of another length")
        rv = num.reader(val)

        def content(idx):
            k = g.sym("bound:%d" % next(num.fresh), True)
            at = [num.node(i[0]) for i in idx[ax:ax + m]]
            e = num.node(rv(idx[:ax] + ((k,),) + idx[ax + m:]))
            e = g.subst(e, {g.fn("nz:%d" % q, (t, k), isint=True): at[q] for q in range(m)})
            if k in set(g.walk([e])):
                e = g.subst(e, {k: g.fn("rank", [t] + at, isint=True)})
            return e
        return num.array("spread", v.dims, num.memo(content), val.dtype)

    def arr_set(self, a, k, val, kind):
        num = self.num
        ks = self.norm_index(a, k)
        v, adv = self.basic(a, ks)
        site = self.site()
        if isinstance(val, Opq):
            onode = val.node
            val = num.array("opaque", v.dims, lambda idx: self.g.fn("elem", [onode] + [num.node(x) for i in idx for x in i]))
        if not adv:
            num.write(v, val, site, kind=kind)
            return
        if len(adv) == 1 and adv[0][1].dtype == "b1":
            ax, mask = adv[0]
            rm = num.reader(mask)
            m = mask.ndim
            for q in range(m):
                if not num.same_dim(mask.dims[q], v.dims[ax + q]):
                    raise ShapeMismatch("boolean index of a different shape")
            sval = num.arr(val)
            if sval.ndim == v.ndim - m + 1 and not num.is1(sval.dims[ax]) and all(len(d) == 1 for d in mask.dims):
                val = self.spread(v, ax, mask, sval)
            elif sval.ndim > v.ndim - m:
                raise self.err("array stored through a boolean mask")
            num.write(v, val, site, cond=lambda idx: rm(idx[ax:ax + m]), kind="masked " + kind)
            return
        if [ax for ax, _ in adv] == list(range(len(adv))) and v.ndim >= len(adv):
            consts = all(all(isinstance(x, int) for d in i.dims for x in d) for _, i in adv)
            if consts and kind != "accumulate" and len(adv) == 1 and adv[0][1].ndim == 1:
                ax, ix = adv[0]
                vals = num.arr(val)
                n = num.dimval(ix.dims[0])
                for q in range(n):
                    i = num.py(num.at(ix, ((q,),)))
                    if not isinstance(i, int):
                        break
                    one = vals if vals.ndim < v.ndim or num.is1(vals.dims[0]) else num.fix(vals, 0, (q,) * len(vals.dims[0]))
                    if vals.ndim == v.ndim and num.is1(vals.dims[0]):
                        one = num.fix(vals, 0, (0,))
                    num.write(num.fix(v, 0, (i % num.dimval(v.dims[0]) if isinstance(num.dimval(v.dims[0]), int) else i,)), one, site, kind=kind)
                else:
                    return
            num.scatter(v, [x for _, x in adv], val, site, False)
            return
        if len(adv) == 1 and adv[0][1].ndim == 1:
            ax, ix = adv[0]
            n = num.dimval(ix.dims[0])
            if isinstance(n, int):
                vals = num.arr(val)
                for q in range(n):
                    i = num.py(num.at(ix, ((q,),)))
                    w = num.fix(v, ax, (i,))
                    off = v.ndim - vals.ndim
                    one = vals if ax < off or num.is1(vals.dims[ax - off]) and vals.ndim == 0 else num.fix(vals, ax - off, (0 if num.is1(vals.dims[ax - off]) else q,))
                    num.write(w, one, site, kind=kind)
                return
        raise self.err("advanced index store")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Method):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw)
        if callable(f):
            return f(*args, **kw)
        if isinstance(f, Opq):
            return Opq(self.g.fn("call", [f.node] + [self.term(x) for x in args]), f.label + "()", tuple(args))
        if f is None:
            self.raise_("TypeError", "'NoneType' object is not callable")
        if isinstance(f, Inst) and f.cls is not None:
            m, c = f.cls.find("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        raise self.err("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        if any(isinstance(b, Ext) and b.path.split(".")[-1] in EXCEPTIONS for k in c.mro() for b in k.bases):
            return ExcVal(c.name, tuple(args))
        o = Inst(c)
        m, k = c.find("__init__")
        if m is not None:
            self.call_func(m, [o] + list(args), kw)
            return o
        dc = [k for k in c.mro() if k.dataclass]
        if dc:
            fields = []
            for k in reversed(c.mro()):
                for nm, has, dv in k.fields:
                    fields = [x for x in fields if x[0] != nm] + [(nm, has, dv)]
            names = [x[0] for x in fields]
            if len(args) > len(names):
                self.raise_("TypeError", "too many arguments")
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names:
                    self.raise_("TypeError", "unexpected argument %s" % k)
                vals[k] = v
            for nm, has, dv in fields:
                if nm not in vals:
                    if not has:
                        self.raise_("TypeError", "missing argument %s" % nm)
                    vals[nm] = dv
                self.setattr(o, nm, vals[nm])
            return o
        if args or kw:
            self.raise_("TypeError", "constructor takes no arguments")
        return o

    def call_func(self, f, args, kw):
        q = (f.cls.name + "." if f.cls is not None else "") + f.name
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.frames) > 80:
            raise self.err("recursion too deep")
        fr = Frame(f, f.mod, f.closure, q)
        fr.line = getattr(f.node, "lineno", 0)
        if f.mod is not None:
            self.mod_globals(f.mod)
        self.bind_args(f, fr, list(args), dict(kw))
        if f.cls is not None and f.kind != "staticmethod" and args:
            fr.self_ = args[0]
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body)
            finally:
                self.frames.pop()
        self.frames.append(fr)
        self.events.append(("enter", q, fr))
        try:
            self.block(f.node.body)
            r = None
        except _Return as e:
            r = e.v
        finally:
            self.frames.pop()
        self.events.append(("exit", q, fr, r))
        return r

    def bind_args(self, f, fr, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            self.raise_("TypeError", "%s takes %d arguments, %d given" % (f.name, len(names), len(args)))
        for nm, v in zip(names, args):
            fr.vars[nm] = v
        if a.vararg is not None:
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in allnames:
                if k in fr.vars:
                    self.raise_("TypeError", "multiple values for %s" % k)
                fr.vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", "%s got an unexpected argument %s" % (f.name, k))
        if a.kwarg is not None:
            fr.vars[a.kwarg.arg] = extra
        dm = Frame(None, f.mod, f.closure, f.name)
        nd = len(a.defaults)
        for nm, d in list(zip(names[len(names) - nd:], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if nm not in fr.vars:
                self.frames.append(dm)
                try:
                    fr.vars[nm] = self.ev(d)
                finally:
                    self.frames.pop()
        for nm in allnames:
            if nm not in fr.vars:
                self.raise_("TypeError", "%s: missing argument %s" % (f.name, nm))

    def call_method(self, o, name, args, kw):
        import pymodels
        return pymodels.method(self, o, name, args, kw)

    def call_ext(self, path, args, kw):
        import pymodels
        h = self.ext_hooks.get(path)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        return pymodels.external(self, path, args, kw)

    def ext_const(self, path):
        import pymodels
        return pymodels.constant(self, path)

    def arr_attr(self, a, name):
        import pymodels
        return pymodels.arr_attr(self, a, name)

    def dtype_of(self, v):
        import pymodels
        return pymodels.dtype_of(v)


class _Split(Exception):
    pass


class Dtype:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "dtype(%s)" % self.name


class Outcome:
    pass


def explore(prog, g, scenario, limit=200, native=None, setup=None):
    """run scenario(interp) along every path; yields Outcome(interp, result | raised)"""
    out = []
    stack = [()]
    while stack:
        choices = stack.pop()
        Buf.n = 0
        Inst.n = 0
        I = Interp(prog, g, choices)
        I.native = native
        if setup is not None:
            setup(I)
        o = Outcome()
        o.I, o.result, o.raised = I, None, None
        try:
            o.result = scenario(I)
        except PyRaise as e:
            o.raised = e
        except Infeasible:
            o.raised = "infeasible"
        for k in range(len(choices), len(I.taken)):
            stack.append(tuple(v for _, v, _ in I.taken[:k]) + (not I.taken[k][1],))
        if o.raised != "infeasible":
            out.append(o)
        if len(out) > limit:
            raise AnalysisError("more than %d paths" % limit)
    return out
