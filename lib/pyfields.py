"""Which fields of an object a method carries over from call to call: effect analysis on the syntax tree of a class."""
import ast
import os


def classes(repo, sub="deodr"):
    """(file, ClassDef) of every class below repo/sub"""
    for d, _, fs in sorted(os.walk(os.path.join(repo, sub))):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                for n in ast.walk(tree):
                    if isinstance(n, ast.ClassDef):
                        yield os.path.relpath(p, repo), n


class Effects:
    """fields of self a method reads before it certainly assigned them, assigns, certainly assigns and modifies in place;
    calls of methods of the same object are followed"""

    def __init__(self, cls):
        self.methods = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef)}
        self.stack = []

    def of(self, name):
        self.read, self.wrote, self.inplace = {}, {}, {}
        self.done = set()
        self.values = {}
        self.run(name)
        return self

    def run(self, name):
        m = self.methods.get(name)
        if m is None or name in self.stack or not m.args.args:
            return
        self.stack.append(name)
        old = getattr(self, "me", None)
        self.me = m.args.args[0].arg
        self.body(m.body)
        self.me = old
        self.stack.pop()

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def field(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
            return e.attr
        return None

    def target(self, t, value=None):
        f = self.field(t)
        if f is not None:
            self.wrote.setdefault(f, t.lineno)
            self.done.add(f)
            self.values[f] = value
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice)
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            f = self.field(b)
            if f is not None:
                self.use(f, t.lineno)
                self.inplace.setdefault(f, t.lineno)
            else:
                self.expr(b)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)

    def use(self, f, line):
        if f not in self.done and f not in self.methods:
            self.read.setdefault(f, line)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.target(t, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.target(s.target, s.value)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            f = self.field(s.target)
            if f is not None:
                self.use(f, s.lineno)
                self.inplace.setdefault(f, s.lineno)
                self.wrote.setdefault(f, s.lineno)
                self.done.add(f)
            else:
                self.target(s.target)
        elif isinstance(s, ast.If):
            self.expr(s.test)
            self.branches([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test)
            keep = set(self.done)
            if isinstance(s, ast.For):
                self.target(s.target)
            self.body(s.body)
            self.done = keep
            self.body(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.target(i.optional_vars)
            self.body(s.body)
        elif isinstance(s, ast.Try):
            keep = set(self.done)
            self.body(s.body)
            full = self.done
            for h in s.handlers:
                self.done = set(keep)
                self.body(h.body)
                full = full & self.done if not always_leaves(h.body) else full
            self.done = full
            self.body(s.orelse)
            self.body(s.finalbody)
        elif isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            keep = set(self.done)
            if isinstance(s, ast.FunctionDef):
                self.body(s.body)
            self.done = keep
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x)

    def branches(self, bs):
        start, ends = set(self.done), []
        for b in bs:
            self.done = set(start)
            self.body(b)
            if not always_leaves(b):
                ends.append(self.done)
        self.done = set.intersection(*ends) if ends else start

    def expr(self, e):
        if isinstance(e, ast.Call):
            for x in e.args + [k.value for k in e.keywords]:
                self.expr(x)
            f = self.field(e.func)
            if f in self.methods:
                self.run(f)
                return
            if isinstance(e.func, ast.Attribute) and e.func.attr.endswith("_") and not e.func.attr.startswith("_"):
                g = self.field(e.func.value)
                if g is not None:      # tensor.add_(...) and the like
                    self.inplace.setdefault(g, e.lineno)
            self.expr(e.func)
            return
        f = self.field(e)
        if f is not None:
            self.use(f, e.lineno)
            return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.comprehension):
                self.expr(x.iter)
                for y in x.ifs:
                    self.expr(y)
            elif isinstance(x, ast.expr):
                self.expr(x)


def always_leaves(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def carried(cls):
    """{field: line of a read} of the fields step() carries over to the next step()"""
    e = Effects(cls).of("step")
    return {f: ln for f, ln in e.read.items() if f in e.wrote or f in e.inplace}, e


def shares(cls, value):
    """the field whose storage the value assigned by reset is (x = self.y, or copy.copy of a tensor), or None"""
    e = Effects(cls)
    name = None
    if isinstance(value, ast.Attribute) and isinstance(value.value, ast.Name):
        name, copied = value.attr, False
    elif isinstance(value, ast.Call) and ast.unparse(value.func) in ("copy.copy", "copy") and value.args and isinstance(value.args[0], ast.Attribute):
        name, copied = value.args[0].attr, True
    if name is None:
        return None
    e.of("__init__")
    src = e.values.get(name)
    if copied:
        return name if src is not None and any(isinstance(x, ast.Call) and ast.unparse(x.func).startswith("torch.") for x in [src]) else None
    if isinstance(src, ast.Name):
        for m in e.methods.values():
            for a in m.args.args:
                if a.arg == src.id and a.annotation is not None and ast.unparse(a.annotation) in ("float", "int", "bool", "str"):
                    return None
    if isinstance(src, ast.Constant):
        return None
    return name
