"""Abstract interpretation of the native renderer on its resolved clang AST.

Whole program from an entry function, every call inlined; each loop is summarised once (induction variables, additive
reductions, element-wise array families, or an explicit sequential sweep); joins are gated (no path enumeration).
Memory is modelled as per-object logs of stores / accumulations with symbolic indices, loop binders and guards.
"""
import math
import sys
from fractions import Fraction
from gvn import Graph, Node, AnalysisError, show

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, decls):
        self.fun = {}      # (name, type) -> FunctionDecl with body
        self.byid = {}
        self.records = {}
        self.enums = {}
        self.recdecl = {}
        self.functions = {}
        last = [0]

        def lines(n):
            for k in ("loc", "range"):
                v = n.get(k)
                if v:
                    for e in ([v] if k == "loc" else [v.get("begin", {}), v.get("end", {})]):
                        for q in (e, e.get("spellingLoc", {}), e.get("expansionLoc", {})):
                            if "line" in q:
                                last[0] = q["line"]
                        if k == "loc" or e is v.get("begin"):
                            if "_line" not in n or k == "range":
                                n["_line"] = e.get("expansionLoc", e).get("line", last[0])
            for c in n.get("inner", ()):
                if c:
                    lines(c)
        for d in decls:
            if d["kind"] in ("FunctionDecl", "FunctionTemplateDecl", "CXXRecordDecl", "VarDecl", "ClassTemplateDecl", "NamespaceDecl"):
                lines(d)
                self._collect(d)

    def _collect(self, d):
        k = d["kind"]
        if k == "NamespaceDecl":
            for c in d.get("inner", ()):
                self._collect(c)
        elif k == "FunctionTemplateDecl":
            for c in d.get("inner", ()):
                if c["kind"] == "FunctionDecl":
                    if any(i.get("kind") == "TemplateArgument" for i in c.get("inner", ())):
                        self._fun(c)
                    else:
                        self.byid[c["id"]] = c
        elif k == "FunctionDecl":
            self._fun(d)
        elif k == "CXXRecordDecl":
            if "name" in d and any(c["kind"] in ("FieldDecl", "CXXMethodDecl") for c in d.get("inner", ())):
                self.records[d["name"]] = d
                for c in d.get("inner", ()):
                    if c["kind"] in ("CXXMethodDecl", "CXXConstructorDecl"):
                        self.byid[c["id"]] = c
        elif k == "VarDecl":
            self.byid[d["id"]] = d

    def _fun(self, d):
        self.byid[d["id"]] = d
        if body(d) is not None:
            self.fun[(d["name"], d["type"]["qualType"])] = d
            self.functions.setdefault(d["name"], []).append(d)

    def resolve(self, ref):
        d = self.byid.get(ref["id"])
        if d is not None and body(d) is not None:
            return d
        return self.fun.get((ref.get("name"), ref["type"]["qualType"]))


def body(d):
    for c in d.get("inner", ()):
        if c["kind"] == "CompoundStmt":
            return c
    return None


def params(d):
    return [c for c in d.get("inner", ()) if c["kind"] == "ParmVarDecl"]


def qt(n):
    t = n["type"]
    return t.get("desugaredQualType", t["qualType"])


# ------------------------------------------------------------------ types

def strip_cv(t):
    t = t.replace("const ", "").replace("volatile ", "").replace("struct ", "").strip()
    while t.endswith("const"):
        t = t[:-5].strip()
    return t


def is_ref(t):
    return t.strip().endswith("&")


def pointee(t):
    """type a pointer or array type points to"""
    t = strip_cv(t)
    if t.endswith("*"):
        return strip_cv(t[:-1])
    i = t.find("(*)")
    if i >= 0:
        return strip_cv(t[:i]) + t[i + 3:]
    i = t.find("[")
    if i >= 0:
        j = t.find("]", i)
        return strip_cv(t[:i]) + t[j + 1:]
    if t.startswith("__gnu_cxx::__normal_iterator<"):
        return pointee(t[len("__gnu_cxx::__normal_iterator<"):].split(",")[0])
    raise AnalysisError("not a pointer type: " + t)


def array_dims(t):
    t = strip_cv(t)
    dims = []
    i = t.find("[")
    base = t[:i].strip() if i >= 0 else t
    while i >= 0:
        j = t.find("]", i)
        dims.append(int(t[i + 1:j]) if t[i + 1:j].strip() else None)
        i = t.find("[", j)
    return base, dims


def scalars(t):
    """number of scalar cells of a type"""
    base, dims = array_dims(t)
    n = 1
    for d in dims:
        n *= d
    return n


INTS = {"int", "short", "long", "char", "unsigned int", "unsigned long", "unsigned short", "unsigned char", "short int",
        "long long", "unsigned long long", "size_t", "signed char", "ptrdiff_t", "std::size_t", "unsigned", "int32_t", "uint32_t", "int64_t"}


def is_int(t):
    return strip_cv(t) in INTS


def is_bool(t):
    return strip_cv(t) == "bool"


def is_float(t):
    return strip_cv(t) in ("double", "float", "long double")


# ------------------------------------------------------------------ values and memory

class Obj:
    n = 0

    def __init__(self, name, kind, etype, size=None, heap=False, param=False, site=None):
        Obj.n += 1
        self.id = Obj.n
        self.name, self.kind, self.etype, self.size, self.heap, self.param, self.site = name, kind, etype, size, heap, param, site
        self.base = None
        self.newarray = True
        self.var = None        # (function, variable) of heap and vector storage

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    __slots__ = ("obj", "off", "field")

    def __init__(self, obj, off, field=None):
        self.obj, self.off, self.field = obj, off, field

    def same(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.off is self.off and o.field == self.field

    def __repr__(self):
        return "&%r[%s]" % (self.obj, show(self.off, 3))


class NullPtr:
    def __repr__(self):
        return "NULL"


NULL = NullPtr()


class PhiPtr:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Rec(dict):
    """struct value: field -> value"""


class FunVal:
    def __init__(self, decl):
        self.decl = decl


class Log:
    __slots__ = ("prev", "kind", "idx", "val", "guard", "binders", "field", "site", "loop", "depth", "uid", "extra", "chain", "org")
    n = 0

    def __init__(self, prev, kind, idx=None, val=None, guard=1, binders=(), field=None, site=None, loop=None, extra=None, chain=(), org=None):
        Log.n += 1
        self.chain = tuple(chain)              # loops of the binders, innermost first
        self.org = Log.n if org is None else org
        self.uid = Log.n
        self.prev, self.kind, self.idx, self.val, self.guard, self.binders = prev, kind, idx, val, guard, tuple(binders)
        self.field, self.site, self.loop, self.extra = field, site, loop, extra
        self.depth = 0 if prev is None else prev.depth + 1

    def entries(self):
        out = []
        e = self
        while e is not None:
            out.append(e)
            e = e.prev
        out.reverse()
        return out


class State:
    __slots__ = ("mem", "pc", "live")

    def __init__(self):
        self.mem = {}   # obj.id -> tuple(cells) | Log | value (rec)
        self.pc = 1
        self.live = {}  # heap obj.id -> bdd

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.live = dict(self.live)
        return s


class Loop:
    n = 0

    def __init__(self, node, fn):
        Loop.n += 1
        self.uid = Loop.n
        self.node = node
        self.fn = fn
        self.carried = set()
        self.bigreads = []
        self.N = None
        self.binder = None
        self.direction = 1
        self.body_logs = {}
        self.seq = False
        self.depth = 0
        self.cells = {}


class Frame:
    def __init__(self, decl):
        self.decl = decl
        self.env = {}
        self.name = decl.get("name", "?")


class Access:
    __slots__ = ("obj", "idx", "write", "pc", "ctx", "site", "field")

    def __init__(self, obj, idx, write, pc, ctx, site, field):
        self.obj, self.idx, self.write, self.pc, self.ctx, self.site, self.field = obj, idx, write, pc, ctx, site, field


# ------------------------------------------------------------------ interpreter

class Interp:
    def __init__(self, prog, g=None):
        self.prog = prog
        self.g = g or Graph()
        self.frames = []
        self.loops = []          # active loops
        self.objs = {}
        self.accesses = {}
        self.throws = []
        self.assumed = []        # facts from refusals: (bdd negated cond, binders)
        self.stopped = set()
        self.stats = {"functions": set(), "calls": 0, "loops": 0, "stmts": 0, "stores": 0, "loads": 0}
        self.loop_hint = {}
        self.events = []         # heap events
        self.seqloops = []
        self.undef_reads = {}
        self.curline = None
        self.narrowings = {}

    # ---- objects
    stop = frozenset()      # storage whose values are treated as constants of the differentiation

    def new_obj(self, st, name, kind, etype, size=None, **kw):
        o = Obj(name, kind, etype, size, **kw)
        self.objs[o.id] = o
        if kind == "cells":
            st.mem[o.id] = tuple([None] * size)
        elif kind == "big":
            st.mem[o.id] = Log(None, "base")
        elif kind == "rec":
            st.mem[o.id] = Rec()
        return o

    def param_array(self, st, name, etype, size=None):
        return self.new_obj(st, name, "big", etype, size, param=True)

    def site(self):
        f = self.frames[-1].name if self.frames else "?"
        return "%s:%s" % (f, self.curline)

    # ---- elements
    def elem(self, obj, idx, field, tok=""):
        g = self.g
        nm = "elem:%s%s%s" % (obj.name, "." + field if field else "", "@" + tok if tok else "")
        t = obj.etype
        if field:
            t = self.field_type(t, field)
        if is_bool(t):
            return g.boolnode(g.b_atom(nm, idx))
        return g.fn(nm, (idx,), isint=is_int(t))

    def field_type(self, rec, field):
        d = self.prog.records.get(strip_cv(rec))
        if d is None:
            raise AnalysisError("unknown record " + rec)
        for c in d["inner"]:
            if c["kind"] == "FieldDecl" and c.get("name") == field:
                return qt(c)
        raise AnalysisError("unknown field %s.%s" % (rec, field))

    def undef(self, obj, idx, field):
        return self.g.fn("undef:%s%s" % (obj.name, "." + field if field else ""), (idx,), isint=is_int(obj.etype))

    # ---- alias reasoning
    def infeasible_eq(self, d, pc):
        """is pc contradictory once d == 0 is assumed (solved for one array element atom)?"""
        g = self.g
        if pc == 1:
            return False
        cand = [n for n in g.walk([d]) if n.op == "fn" and n.val.startswith("elem:")]
        for e in cand[:8]:
            m = g.fn("_probe", (e,))
            d1 = g.subst(d, {e: g.add(m, g.ONE)})
            d0 = g.subst(d, {e: m})
            c = g.sub(d1, d0)
            if any(x is m for x in g.walk([c])):
                continue
            if c is g.ZERO:
                continue
            sol = g.sub(m, g.div(d0, c))
            if any(x is m for x in g.walk([sol])):
                continue
            if g.subst_bdd(pc, {e: sol}) == 0:
                return True
        return False

    def alias(self, a, b, pc):
        d = self.g.sub(a, b)
        if d is self.g.ZERO:
            return 1
        if d.op == "const":
            return 0
        d = self.reduce_int(d)
        if d is None:
            return 0
        e = self.g.b_eq0(d)
        if self.g.b_and(e, pc) == 0:
            return 0
        if e > 1 and self.infeasible_eq(d, pc):
            return 0
        return e

    def reduce_int(self, d):
        """divide an integer polynomial by the common divisor of its coefficients; None when it cannot be zero"""
        p, at = self.poly(d)
        if not all(x.isint for x in at.values()) or not all(v.denominator == 1 for v in p.values()):
            return d
        k = math.gcd(*[int(v) for m, v in p.items() if m != ()])
        if k > 1:
            if p.get((), 0) % k:
                return None
            return self.g.div(d, self.g.const(k))
        return d

    def affine(self, e, b):
        """(coefficient, rest) of expression e in binder b, or None"""
        g = self.g
        e0 = g.subst(e, {b: g.ZERO})
        e1 = g.subst(e, {b: g.ONE})
        s = g.sub(e1, e0)
        if g.add(e0, g.mul(s, b)) is not e:
            return None
        return s, e0

    def in_range(self, t, N):
        """bdd of 0 <= t < N, decided when possible"""
        g = self.g
        lo = self.nonneg(t)
        hi = self.nonneg(g.sub(g.sub(N, t), g.ONE))
        b = 1
        if lo is None:
            b = g.b_and(b, g.b_not(g.b_lt0(t, True)))
        elif lo is False:
            return 0
        if hi is None:
            b = g.b_and(b, g.b_lt0(g.sub(t, N), True))
        elif hi is False:
            return 0
        return b

    def poly(self, n):
        """integer polynomial normal form: dict monomial(tuple of atom nids sorted) -> coef ; atoms table"""
        r = {}
        at = {}

        def go(n):
            if n.op == "const":
                return {(): n.val} if n.val else {}
            if n.op == "add":
                a, b = go(n.args[0]), go(n.args[1])
                o = dict(a)
                for k, v in b.items():
                    o[k] = o.get(k, 0) + v
                    if o[k] == 0:
                        del o[k]
                return o
            if n.op == "mul":
                a, b = go(n.args[0]), go(n.args[1])
                o = {}
                for k1, v1 in a.items():
                    for k2, v2 in b.items():
                        k = tuple(sorted(k1 + k2))
                        o[k] = o.get(k, 0) + v1 * v2
                        if o[k] == 0:
                            del o[k]
                return o
            at[n.nid] = n
            return {(n.nid,): Fraction(1)}
        r = go(n)
        return r, at

    def atom_lo(self, n):
        """known lower bound 0 of an integer atom"""
        if n.op == "sym" and n.val in self.nonneg_syms:
            return True
        if n.op == "fn" and (n.val.startswith("bnd:") or n.val in ("pt", "perm")):
            return True
        if n.op == "fn" and n.val.startswith("elem:") and n.val.split("@")[0] in ("elem:faces", "elem:faces_uv"):
            return True
        return False

    nonneg_syms = frozenset()

    def nonneg(self, n, depth=0):
        """True: proved n >= 0; False: proved n < 0; None unknown"""
        g = self.g
        if n.op == "const":
            return n.val >= 0
        p, at = self.poly(n)
        if all(v >= 0 for v in p.values()) and all(self.atom_lo(at[i]) for k in p for i in k):
            return True
        if all(v <= 0 for v in p.values()) and p.get((), 0) < 0 and all(self.atom_lo(at[i]) for k in p for i in k):
            return False
        if depth < 4:
            for a in at.values():
                if a.op == "fn" and (a.val.startswith("bnd:") or a.val in ("pt", "perm")) and any(v < 0 and a.nid in k for k, v in p.items()):
                    # a = N-1-a', a' >= 0
                    fresh = g.fn("bnd:r", (a,), isint=True)
                    m = g.subst(n, {a: g.sub(g.sub(a.args[0], g.ONE), fresh)})
                    r = self.nonneg(m, depth + 1)
                    if r:
                        return True
        return None

    def solve(self, e, r):
        """match log entry e (with binders) against index r.
        returns None (no element of the family is r), 'unknown', or (mapping, domain bdd, remaining binders)"""
        g = self.g
        if not e.binders:
            raise AnalysisError("solve")
        used = [b for (b, N) in e.binders if self.depends(e.idx, b)]
        rest = [(b, N) for (b, N) in e.binders if not self.depends(e.idx, b)]
        # 1. identical expression under the binders active here with the same iteration space
        act = [lp.binder for lp in self.loops if lp.binder is not None]
        Ns = {b: N for b, N in e.binders}
        if e.idx is r and all(any(b is a for a in act) for b in used):
            return {}, 1, rest
        if not used:
            c = self.alias(e.idx, r, 1)
            if c == 0:
                return None
            return {}, c, rest
        if len(used) >= 1:
            m = self.match_binders(e.idx, used, Ns, r)
            if m is not None:
                return m[0], m[1], [(g_b, g.subst(N, m[0])) for g_b, N in rest]
        if len(used) == 1:
            b = used[0]
            af = self.affine(e.idx, b)
            if af is None or af[0] is g.ZERO:
                return "unknown"
            s, e0 = af
            d = g.sub(r, e0)
            t = g.div(d, s)
            if s.op == "const" and abs(s.val) == 1:
                dom = self.in_range(t, Ns[b])
                if dom == 0:
                    return None
                return {b: t}, dom, rest
            t2 = self.integral(d, s)
            if t2 is None:
                return None
            if t2 == "unknown":
                return "unknown"
            dom = self.in_range(t2, Ns[b])
            if dom == 0:
                return None
            return {b: t2}, dom, rest
        return "unknown"

    def match_binders(self, idx, used, Ns, r):
        """identity-like matching of several binders to binders/points occurring in r"""
        g = self.g
        cands = [n for n in g.walk([r]) if n.op == "fn" and (n.val.startswith("bnd:") or n.val == "pt")]
        act = [lp.binder for lp in self.loops if lp.binder is not None]
        cands += [a for a in act if a not in cands]
        m = {}

        def rec(i):
            if i == len(used):
                return g.subst(idx, m) is r
            b = used[i]
            N = g.subst(Ns[b], m)
            for c in cands:
                if c.args[0] is N and c not in m.values():
                    m[b] = c
                    if rec(i + 1):
                        return True
                    del m[b]
            return False
        if rec(0):
            return dict(m), 1
        return None

    def integral(self, d, s):
        """d / s when provably an integer; None when provably not an integer; 'unknown'"""
        g = self.g
        if s.op != "const" or s.val.denominator != 1:
            q = g.div(d, s)
            # d = s * (integer expression): accept when q is visibly an integer polynomial
            p, at = self.poly(q)
            if all(v.denominator == 1 for v in p.values()) and all(a.isint for a in at.values()):
                return q
            return "unknown"
        k = int(s.val)
        p, at = self.poly(d)
        if not all(a.isint for a in at.values()):
            return "unknown"
        if all(v.denominator == 1 and v % k == 0 for v in p.values()):
            return g.div(d, s)
        nonc = {m: v for m, v in p.items() if m != ()}
        if all(v.denominator == 1 and v % k == 0 for v in nonc.values()) and p.get((), 0) % k != 0:
            return None
        return "unknown"

    def depends(self, n, b):
        if b.op == "fn":
            if ((b.val, b.args[0].nid)) not in n.deps:
                return False
        return any(x is b for x in self.g.walk([n]))

    # ---- big object reads
    def read_big(self, st, obj, idx, field):
        self.stats["loads"] += 1
        return self._read(st.mem[obj.id], obj, idx, field, st.pc, st)

    def _read(self, e, obj, idx, field, pc, st):
        g = self.g
        if pc == 0:
            return g.ZERO
        while True:
            k = e.kind
            if k == "base":
                if obj.param:
                    return self.elem(obj, idx, field)
                return self.undef(obj, idx, field)
            if k == "loopstart":
                lp = e.loop
                if obj.id in lp.carried:
                    return self.elem(obj, idx, field, "L%d" % lp.uid)
                lp.bigreads.append((obj, idx, field, pc))
                e = e.prev
                continue
            if k == "seq":
                return self.elem(obj, idx, field, "V%d" % e.uid)
            if k == "perm":
                t = g.fn("perm", (e.extra[1], e.extra[0], idx), isint=True)
                return self._read(e.prev, obj, t, field, pc, st)
            if e.field != field:
                e = e.prev
                continue
            if g.b_and(e.guard, pc) == 0:
                e = e.prev
                continue
            if not e.binders:
                c = self.alias(idx, e.idx, g.b_and(pc, e.guard))
                if c == 0:
                    e = e.prev
                    continue
                cond = g.b_and(c, e.guard)
                if k == "store":
                    if g.implies(pc, cond):
                        return e.val
                    return g.sel(cond, e.val, self._read(e.prev, obj, idx, field, g.b_and(pc, g.b_not(cond)), st))
                older = self._read(e.prev, obj, idx, field, pc, st)
                return g.add(older, g.sel(cond, e.val, g.ZERO))
            r = self.solve(e, idx)
            if r is None:
                e = e.prev
                continue
            if r == "unknown":
                return self.elem(obj, idx, field, "V%d" % e.uid)
            m, dom, rest = r
            val, guard = g.subst(e.val, m) if isinstance(e.val, Node) else e.val, g.subst_bdd(e.guard, m)
            if k == "store":
                if rest:
                    # a location rewritten by every iteration: keep the last value opaque
                    return self.elem(obj, idx, field, "V%d" % e.uid)
                cond = g.b_and(dom, guard)
                if g.b_and(cond, pc) == 0:
                    e = e.prev
                    continue
                if g.implies(pc, cond):
                    return val
                return g.sel(cond, val, self._read(e.prev, obj, idx, field, g.b_and(pc, g.b_not(cond)), st))
            older = self._read(e.prev, obj, idx, field, pc, st)
            d = g.sel(guard, val, g.ZERO)
            for b, N in rest:
                d = self.sum(b, N, d)
            return g.add(older, g.sel(dom, d, g.ZERO))

    def sum(self, b, N, e):
        g = self.g
        if N.op == "const" and N.val <= 64:
            r = g.ZERO
            for i in range(int(N.val)):
                r = g.add(r, g.subst(e, {b: g.const(i)}))
            return r
        e2 = g.subst(e, {b: g.fn("pt", (N,), isint=True)})
        return g.mul(g.fn("cnt", (N,), isint=True), e2)

    # ---- lvalues
    def load(self, st, loc):
        if loc[0] == "ref":
            return self.load(st, loc[1])
        if loc[0] == "phi":
            _, c, a, b = loc
            return self.join(c, self.load_guarded(st, a, c), self.load_guarded(st, b, self.g.b_not(c)))
        _, obj, idx, field = loc
        if obj.kind == "rec":
            v = st.mem[obj.id].get(field)
            if v is None:
                raise AnalysisError("read of unset field %s.%s" % (obj.name, field))
            return v
        self.access(st, obj, idx, field, False)
        if obj.kind == "cells":
            cells = st.mem[obj.id]
            if idx.op == "const":
                i = int(idx.val)
                if not (0 <= i < len(cells)):
                    return self.g.fn("oob:" + obj.name, (idx,))
                v = cells[i]
                if v is None:
                    v = self.undef(obj, idx, None)
                return self.simplify(st, v)
            lv = self.lift(self.simplify(st, idx))
            if lv is not None:
                r = None
                for b, c in lv:
                    if self.g.b_and(b, st.pc) == 0:
                        continue
                    i = int(c)
                    v = cells[i] if 0 <= i < len(cells) else self.g.fn("oob:" + obj.name, (self.g.const(i),))
                    if v is None:
                        v = self.undef(obj, self.g.const(i), None)
                    r = v if r is None else self.join(b, v, r)
                return self.simplify(st, r)
            if all(isinstance(c, (Ptr, PhiPtr)) for c in cells if c is not None):
                raise AnalysisError("pointer array indexed symbolically: " + obj.name)
            r = self.g.fn("oob:" + obj.name, (idx,))
            for i, c in enumerate(cells):
                v = c if c is not None else self.undef(obj, self.g.const(i), None)
                r = self.g.sel(self.g.b_eq0(self.g.sub(idx, self.g.const(i))), v, r)
            return self.simplify(st, r)
        v = self.read_big(st, obj, idx, field)
        if obj.var in self.stop:
            self.stopped.add(obj.var)
            return self.g.fn("stop", (self.tonode(v),))
        return self.simplify(st, v)

    def load_guarded(self, st, loc, c):
        s = st.clone()
        s.pc = self.g.b_and(st.pc, c)
        return self.load(s, loc)

    def simplify(self, st, v):
        if isinstance(v, Node):
            return self.g.assume(v, st.pc)
        if isinstance(v, PhiPtr):
            if self.g.implies(st.pc, v.c):
                return self.simplify(st, v.a)
            if self.g.b_and(st.pc, v.c) == 0:
                return self.simplify(st, v.b)
        return v

    def lift(self, n):
        """decision list [(bdd, const)] when n is a gated choice of constants"""
        g = self.g
        if n.op == "const":
            return [(1, n.val)]
        if n.op == "bool":
            return [(n.val, Fraction(1)), (g.b_not(n.val), Fraction(0))]
        if n.op == "sel":
            a, b = self.lift(n.args[0]), self.lift(n.args[1])
            if a is None or b is None:
                return None
            out = [(g.b_and(n.val, c), v) for c, v in a] + [(g.b_and(g.b_not(n.val), c), v) for c, v in b]
            return self._dedupe(out)
        if n.op in ("add", "mul"):
            a, b = self.lift(n.args[0]), self.lift(n.args[1])
            if a is None or b is None or len(a) * len(b) > 64:
                return None
            return self._dedupe([(g.b_and(c1, c2), v1 + v2 if n.op == "add" else v1 * v2) for c1, v1 in a for c2, v2 in b])
        return None

    def _dedupe(self, out):
        d = {}
        for c, v in out:
            if c != 0:
                d[v] = self.g.b_or(d.get(v, 0), c)
        return [(c, v) for v, c in d.items()]

    def liftmap(self, n, f):
        lv = self.lift(n)
        if lv is None:
            return None
        r = None
        for b, c in lv:
            v = self.g.const(f(c))
            r = v if r is None else self.g.sel(b, v, r)
        return r

    def store(self, st, loc, val):
        if loc[0] == "ref":
            return self.store(st, loc[1], val)
        if loc[0] == "phi":
            _, c, a, b = loc
            self.store_guarded(st, a, val, c)
            self.store_guarded(st, b, val, self.g.b_not(c))
            return
        _, obj, idx, field = loc
        self.stats["stores"] += 1
        if obj.kind == "rec":
            r = Rec(st.mem[obj.id])
            r[field] = val
            st.mem[obj.id] = r
            return
        self.access(st, obj, idx, field, True)
        if obj.kind == "cells":
            cells = list(st.mem[obj.id])
            lv = self.lift(self.simplify(st, idx))
            if lv is None:
                for i in range(len(cells)):
                    b = self.g.b_eq0(self.g.sub(idx, self.g.const(i)))
                    old = cells[i] if cells[i] is not None else self.undef(obj, self.g.const(i), None)
                    cells[i] = self.g.sel(b, val, old)
            else:
                for b, c in lv:
                    i = int(c)
                    if not (0 <= i < len(cells)):
                        continue
                    if self.g.implies(st.pc, b):
                        cells[i] = val
                    else:
                        old = cells[i] if cells[i] is not None else self.undef(obj, self.g.const(i), None)
                        cells[i] = self.join(b, val, old)
            st.mem[obj.id] = tuple(cells)
            return
        st.mem[obj.id] = Log(st.mem[obj.id], "store", idx, val, 1, (), field, self.site())

    def store_guarded(self, st, loc, val, c):
        if self.g.b_and(st.pc, c) == 0:
            return
        s = st.clone()
        s.pc = self.g.b_and(st.pc, c)
        self.store(s, loc, val)
        o = st.clone()
        o.pc = self.g.b_and(st.pc, self.g.b_not(c))
        m = self.merge(s, o)
        st.mem, st.live = m.mem, m.live

    def accumulate(self, st, loc, delta):
        """loc += delta"""
        if loc[0] == "ref":
            return self.accumulate(st, loc[1], delta)
        if loc[0] == "loc" and loc[1].kind == "big" and isinstance(delta, Node):
            _, obj, idx, field = loc
            # fold into an own-iteration store of the same element when it is the newest entry
            e = st.mem[obj.id]
            if e.kind == "store" and not e.binders and e.guard == 1 and e.idx is idx and e.field == field:
                self.access(st, obj, idx, field, True)
                st.mem[obj.id] = Log(e.prev, "store", idx, self.g.add(e.val, delta), 1, (), field, self.site())
                return
            own = self.own_store(e, idx, field, st.pc)
            if own is not None:
                self.store(st, loc, self.g.add(own, delta))
                return
            self.access(st, obj, idx, field, True)
            st.mem[obj.id] = Log(e, "acc", idx, delta, 1, (), field, self.site())
            return
        self.store(st, loc, self.g.add(self.tonode(self.load(st, loc)), delta))

    def own_store(self, e, idx, field, pc):
        """value of idx when it was stored in the current iteration (before any other possibly aliasing entry)"""
        while e is not None and e.kind in ("store", "acc") and not e.binders:
            if e.field == field:
                if e.idx is idx:
                    return e.val if (e.kind == "store" and e.guard == 1) else None
                if self.alias(e.idx, idx, pc) != 0:
                    return None
            e = e.prev
        return None

    def access(self, st, obj, idx, field, write):
        if obj.heap and obj.id in st.live and st.live[obj.id] != 1 and not self.g.implies(st.pc, st.live[obj.id]):
            self.events.append(("use-after-delete", obj, None, self.site()))
        k = (self.site(), obj.name, obj.id if not obj.param else 0, idx.nid, write)
        a = self.accesses.get(k)
        if a is None:
            self.accesses[k] = Access(obj, idx, write, st.pc, tuple(self.loops), self.site(), field)
        elif a.pc != st.pc or a.ctx != tuple(self.loops):
            # the loops known to run are those common to all occurrences
            ctx = tuple(x for x in a.ctx if any(x is y for y in self.loops))
            self.accesses[k] = Access(obj, idx, write, self.g.b_or(a.pc, st.pc), ctx, a.site, field)

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            return self.g.sel(c, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            return Rec({k: self.join(c, a[k], b[k]) for k in a if k in b})
        if isinstance(a, Ptr) and a.same(b):
            return a
        if isinstance(a, (Ptr, PhiPtr, NullPtr)) and isinstance(b, (Ptr, PhiPtr, NullPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.field == b.field:
                return Ptr(a.obj, self.g.sel(c, a.off, b.off), a.field)
            if c == 1:
                return a
            if c == 0:
                return b
            return PhiPtr(c, a, b)
        raise AnalysisError("join of %r and %r" % (a, b))

    def merge(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        g = self.g
        care = g.b_or(s1.pc, s2.pc)
        c = g.restrict(s1.pc, care)
        nc = g.b_not(c)
        st = State()
        st.pc = care
        for k in s1.mem:
            if k not in s2.mem:
                continue
            a, b = s1.mem[k], s2.mem[k]
            if a is b:
                st.mem[k] = a
            elif isinstance(a, Log):
                st.mem[k] = self.merge_logs(a, b, c, nc)
            elif isinstance(a, Rec):
                st.mem[k] = self.join(c, a, b)
            else:
                o = self.objs[k]
                cells = []
                for i, (x, y) in enumerate(zip(a, b)):
                    if x is y:
                        cells.append(x)
                    else:
                        if isinstance(x, (Ptr, PhiPtr, NullPtr)) or isinstance(y, (Ptr, PhiPtr, NullPtr)):
                            cells.append(self.join(c, x, y) if x is not None and y is not None else (x if y is None else y))
                            continue
                        x = x if x is not None else self.undef(o, g.const(i), None)
                        y = y if y is not None else self.undef(o, g.const(i), None)
                        cells.append(self.join(c, x, y))
                st.mem[k] = tuple(cells)
        for k in set(s1.live) | set(s2.live):
            st.live[k] = g.ite(c, s1.live.get(k, 0), s2.live.get(k, 0))
        return st

    def merge_logs(self, a, b, c, nc):
        g = self.g
        A, B = [], []
        x, y = a, b
        while x is not y:
            if x.depth >= y.depth:
                A.append(x)
                x = x.prev
            else:
                B.append(y)
                y = y.prev
            if x is None or y is None:
                raise AnalysisError("logs without common prefix")
        cur = x
        for lst, cc in ((A, c), (B, nc)):
            for e in reversed(lst):
                cur = Log(cur, e.kind, e.idx, e.val, g.b_and(e.guard, cc), e.binders, e.field, e.site, e.loop, e.extra, e.chain, e.org)
        return cur

    # ---- expressions
    def tonode(self, v):
        if isinstance(v, Node):
            return v
        if v is None:
            raise AnalysisError("void value used")
        if isinstance(v, NullPtr):
            return self.g.ZERO
        if isinstance(v, (Ptr, PhiPtr)):
            return self.g.ONE  # only reached for truth of a non-null pointer
        raise AnalysisError("not a scalar: %r" % (v,))

    def lv(self, st, n):
        """evaluate an lvalue expression to a location"""
        k = n["kind"]
        self.curline = n.get("_line", self.curline)
        if k in ("ParenExpr", "ExprWithCleanups"):
            return self.lv(st, n["inner"][0])
        if k == "DeclRefExpr":
            rid = n["referencedDecl"]["id"]
            for f in (self.frames[-1],):
                if rid in f.env:
                    return f.env[rid]
            d = self.prog.byid.get(rid)
            if d is not None and d["kind"] == "VarDecl":
                return self.global_var(st, d)
            raise AnalysisError("unknown variable %s (line %s)" % (n["referencedDecl"].get("name"), self.curline))
        if k == "ArraySubscriptExpr":
            base, ix = n["inner"]
            p = self.rv(st, base)
            i = self.tonode(self.rv(st, ix))
            return self.deref(self.padd(p, i, qt(base)))
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref(self.rv(st, n["inner"][0]))
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            l = self.lv(st, n["inner"][0])
            v = self.load(st, l)
            one = self.g.const(1 if n["opcode"] == "++" else -1)
            if isinstance(v, (Ptr, PhiPtr)):
                self.store(st, l, self.padd(v, one, qt(n["inner"][0])))
            else:
                self.store(st, l, self.g.add(self.tonode(v), one))
            return l
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                l = self.deref(self.rv(st, b))
            else:
                l = self.lv(st, b)
            return self.field(l, n["name"])
        if k == "CXXOperatorCallExpr":
            args = n["inner"][1:]
            opn = n["inner"][0]
            while opn["kind"] == "ImplicitCastExpr":
                opn = opn["inner"][0]
            op = opn["referencedDecl"]["name"]
            if op == "operator[]":
                o = self.vecobj(st, args[0])
                i = self.tonode(self.rv(st, args[1]))
                return ("loc", o, i, None)
            if op == "operator*":
                return self.deref(self.rv(st, args[0]))
            raise AnalysisError("operator call %s" % op)
        if k == "CXXMemberCallExpr":
            me = n["inner"][0]
            o = self.vecobj(st, me["inner"][0])
            if me["name"] in ("at",):
                return ("loc", o, self.tonode(self.rv(st, n["inner"][1])), None)
            if me["name"] == "front":
                return ("loc", o, self.g.ZERO, None)
            if me["name"] == "back":
                return ("loc", o, self.g.sub(self.vsize(st, o), self.g.ONE), None)
            raise AnalysisError("member call " + me["name"])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n["opcode"] == ",":
                self.rv(st, n["inner"][0])
                return self.lv(st, n["inner"][1])
            return self.assign(st, n)
        if k == "MaterializeTemporaryExpr":
            t = qt(n)
            o = self.new_obj(st, "tmp", "cells", t, 1)
            st.mem[o.id] = (self.rv(st, n["inner"][0]),)
            return ("loc", o, self.g.ZERO, None)
        if k == "ImplicitCastExpr" and n["castKind"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
            return self.lv(st, n["inner"][0])
        if k == "ConditionalOperator":
            c = self.cond(st, n["inner"][0])
            if c == 1:
                return self.lv(st, n["inner"][1])
            if c == 0:
                return self.lv(st, n["inner"][2])
            return ("phi", c, self.lv(st, n["inner"][1]), self.lv(st, n["inner"][2]))
        if k == "CallExpr":
            nm = self.callee_name(n)
            if nm in ("min", "max"):
                t = qt(n)
                o = self.new_obj(st, "tmp", "cells", t, 1)
                st.mem[o.id] = (self.rv_call(st, n),)
                return ("loc", o, self.g.ZERO, None)
            r = self.rv_call(st, n)
            if isinstance(r, tuple) and r and r[0] in ("loc", "ref", "phi"):
                return r
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr"):
            return self.lv(st, n["inner"][-1])
        raise AnalysisError("unsupported lvalue %s at line %s" % (k, self.curline))

    def global_var(self, st, d):
        key = "global:" + d["id"]
        for o in self.objs.values():
            if o.name == key:
                return ("loc", o, self.g.ZERO, None)
        init = [c for c in d.get("inner", ()) if c]
        o = self.declare(st, d["name"], qt(d), init[0] if init else None)
        raise AnalysisError("global variable " + d["name"])

    def field(self, l, name):
        if l[0] == "ref":
            return self.field(l[1], name)
        if l[0] == "phi":
            return ("phi", l[1], self.field(l[2], name), self.field(l[3], name))
        _, obj, idx, f = l
        if f is not None:
            raise AnalysisError("nested field")
        return ("loc", obj, idx, name)

    def deref(self, p):
        if isinstance(p, Ptr):
            return ("loc", p.obj, p.off, p.field)
        if isinstance(p, PhiPtr):
            return ("phi", p.c, self.deref(p.a), self.deref(p.b))
        if isinstance(p, NullPtr):
            raise AnalysisError("null dereference (line %s)" % self.curline)
        raise AnalysisError("dereference of %r (line %s)" % (p, self.curline))

    def padd(self, p, i, t):
        if isinstance(p, PhiPtr):
            return PhiPtr(p.c, self.padd(p.a, i, t), self.padd(p.b, i, t))
        if not isinstance(p, Ptr):
            raise AnalysisError("pointer arithmetic on %r (line %s)" % (p, self.curline))
        k = scalars(pointee(t))
        return Ptr(p.obj, self.g.add(p.off, self.g.mul(self.g.const(k), i)), p.field)

    def vecobj(self, st, n):
        l = self.lv(st, n)
        while l[0] == "ref":
            l = l[1]
        o = l[1]
        if o.kind == "cells" and isinstance(st.mem[o.id][0], Ptr):
            return st.mem[o.id][0].obj
        return o

    def vsize(self, st, o):
        return st.mem.get(("size", o.id))

    def callee_name(self, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        if f["kind"] == "DeclRefExpr":
            return f["referencedDecl"]["name"]
        return None

    def cond(self, st, n):
        """condition as bdd (short circuit handled by path condition)"""
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups"):
            return self.cond(st, n["inner"][0])
        if k == "ImplicitCastExpr" and n["castKind"] in ("IntegralToBoolean", "FloatingToBoolean", "LValueToRValue", "NoOp", "IntegralCast"):
            if n["castKind"] != "LValueToRValue":
                inner = n["inner"][0]
                if inner["kind"] in ("BinaryOperator", "UnaryOperator", "ParenExpr") and n["castKind"] == "NoOp":
                    return self.cond(st, inner)
        if k == "UnaryOperator" and n["opcode"] == "!":
            return self.g.b_not(self.cond(st, n["inner"][0]))
        if k == "BinaryOperator" and n["opcode"] in ("&&", "||"):
            a = self.cond(st, n["inner"][0])
            s = st.clone()
            s.pc = self.g.b_and(st.pc, a if n["opcode"] == "&&" else self.g.b_not(a))
            if s.pc == 0:
                return self.simp_b(st, a)
            b = self.cond(s, n["inner"][1])
            return self.simp_b(st, self.g.b_and(a, b) if n["opcode"] == "&&" else self.g.b_or(a, b))
        v = self.rv(st, n)
        return self.simp_b(st, self.truth(v))

    def simp_b(self, st, b):
        g = self.g
        if g.implies(st.pc, b):
            return 1
        if g.b_and(st.pc, b) == 0:
            return 0
        return b

    def truth(self, v):
        if isinstance(v, Node):
            return self.g.tobdd(v)
        if isinstance(v, NullPtr):
            return 0
        if isinstance(v, Ptr):
            return 1
        if isinstance(v, PhiPtr):
            return self.g.ite(v.c, self.truth(v.a), self.truth(v.b))
        raise AnalysisError("truth of %r" % (v,))

    def rv(self, st, n):
        k = n["kind"]
        g = self.g
        self.curline = n.get("_line", self.curline)
        if k == "ImplicitCastExpr" or k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
            ck = n.get("castKind")
            inner = n["inner"][-1]
            if ck == "LValueToRValue":
                if qt(n) == "std::nullptr_t":
                    return NULL
                return self.load(st, self.lv(st, inner))
            if ck == "ArrayToPointerDecay":
                if inner["kind"] == "StringLiteral":
                    return g.ZERO
                l = self.lv(st, inner)
                return self.addr(l)
            if ck in ("NullToPointer",):
                return NULL
            if ck in ("NoOp", "IntegralCast", "FloatingCast", "BitCast", "IntegralToFloating", "BooleanToSignedIntegral", "ConstructorConversion"):
                v = self.rv(st, inner)
                if ck == "IntegralCast" and isinstance(v, Node) and v.op != "const":
                    self.narrow(st, n, inner, v)
                return v
            if ck == "FloatingToIntegral":
                v = self.tonode(self.rv(st, inner))
                self.narrow(st, n, inner, v)
                if v.isint or v.op == "const" and v.val.denominator == 1:
                    return v
                if v.op == "const":
                    return g.const(int(v.val))
                return g.fn("trunc", (v,), isint=True)
            if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                return g.boolnode(self.truth(self.rv(st, inner)))
            if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
                return self.rv(st, inner)
            if ck == "ToVoid":
                self.rv(st, inner)
                return None
            if ck in ("UserDefinedConversion",):
                return self.rv(st, inner)
            raise AnalysisError("cast %s line %s" % (ck, self.curline))
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr"):
            return self.rv(st, n["inner"][0])
        if k == "IntegerLiteral":
            return g.const(int(n["value"]))
        if k == "FloatingLiteral":
            return g.const(Fraction(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return g.const(1 if n["value"] else 0)
        if k == "CharacterLiteral":
            return g.const(int(n["value"]))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL if "*" in qt(n) or True else g.ZERO
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                d = self.prog.resolve(rd)
                return FunVal(d if d is not None else rd)
            if rd["kind"] == "EnumConstantDecl":
                raise AnalysisError("enum constant")
            l = self.lv(st, n)
            return self.load_any(st, l)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "&":
                return self.addr(self.lv(st, n["inner"][0]))
            if op in ("++", "--"):
                l = self.lv(st, n["inner"][0])
                old = self.load(st, l)
                one = g.const(1 if op == "++" else -1)
                if isinstance(old, (Ptr, PhiPtr)):
                    new = self.padd(old, one, qt(n["inner"][0]))
                else:
                    new = g.add(self.tonode(old), one)
                self.store(st, l, new)
                return old if n.get("isPostfix") else new
            if op == "-":
                return g.neg(self.tonode(self.rv(st, n["inner"][0])))
            if op == "+":
                return self.rv(st, n["inner"][0])
            if op == "!":
                return g.boolnode(g.b_not(self.cond(st, n["inner"][0])))
            if op == "*":
                return self.load(st, self.lv(st, n))
            raise AnalysisError("unary " + op)
        if k == "BinaryOperator":
            return self.binop(st, n)
        if k == "CompoundAssignOperator":
            l = self.assign(st, n)
            return self.load(st, l) if self.want_value else None
        if k == "ConditionalOperator":
            c = self.cond(st, n["inner"][0])
            if c == 1:
                return self.rv(st, n["inner"][1])
            if c == 0:
                return self.rv(st, n["inner"][2])
            s1, s2 = st.clone(), st.clone()
            s1.pc, s2.pc = g.b_and(st.pc, c), g.b_and(st.pc, g.b_not(c))
            a, b = self.rv(s1, n["inner"][1]), self.rv(s2, n["inner"][2])
            m = self.merge(s1, s2)
            st.mem, st.live = m.mem, m.live
            if a is None and b is None:
                return None
            return self.join(c, a, b)
        if k == "CallExpr":
            return self.rv_call(st, n)
        if k == "CXXMemberCallExpr":
            return self.member_call(st, n)
        if k == "CXXOperatorCallExpr":
            return self.operator_call(st, n)
        if k == "CXXNewExpr":
            return self.new_expr(st, n)
        if k == "CXXDeleteExpr":
            p = self.rv(st, n["inner"][0])
            self.delete(st, p, bool(n.get("isArray") or n.get("isArrayAsWritten")))
            return None
        if k == "CXXThrowExpr":
            self.do_throw(st, n)
            return None
        if k == "UnaryExprOrTypeTraitExpr":
            t = n.get("argType", {}).get("qualType") or qt(n["inner"][0])
            return g.fn("sizeof", (g.const(scalars(t)), g.sym("bytes:" + array_dims(t)[0])), isint=True) if False else g.mul(g.const(scalars(t)), g.const(self.tsize(array_dims(t)[0])))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            inner = n.get("inner", [])
            if len(inner) == 1:
                t = strip_cv(qt(n))
                src = inner[0]
                while src["kind"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr") and src.get("castKind", "NoOp") == "NoOp":
                    src = src["inner"][0]
                if t in self.prog.records:
                    return self.record_value(st, src)
            if strip_cv(qt(n)) in self.prog.records:
                return Rec({"__type__": strip_cv(qt(n))})
            if len(inner) == 1:
                return self.rv(st, inner[0])
            raise AnalysisError("constructor of " + qt(n))
        if k == "MemberExpr":
            return self.load_any(st, self.lv(st, n))
        if k == "InitListExpr":
            t = strip_cv(qt(n))
            if t in self.prog.records:
                fs = [c["name"] for c in self.prog.records[t]["inner"] if c["kind"] == "FieldDecl"]
                return Rec({f: self.rv(st, e) for f, e in zip(fs, n.get("inner", []))})
            if len(n.get("inner", [])) == 1:
                return self.rv(st, n["inner"][0])
            raise AnalysisError("initializer list")
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return NULL if "*" in qt(n) else g.ZERO
        if k == "ArraySubscriptExpr":
            return self.load_any(st, self.lv(st, n))
        if k == "LambdaExpr":
            for c in n["inner"]:
                if c["kind"] == "CXXRecordDecl":
                    for m in c["inner"]:
                        if m["kind"] == "CXXMethodDecl" and m["name"] == "operator()":
                            f = FunVal(m)
                            f.env = self.frames[-1].env
                            return f
        if k == "StringLiteral":
            return g.ZERO
        raise AnalysisError("unsupported expression %s at line %s" % (k, self.curline))

    want_value = True

    def tsize(self, t):
        return {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "short": 2, "bool": 1, "char": 1, "unsigned long": 8, "long": 8, "unsigned char": 1, "sortdata": 16}.get(strip_cv(t), 8)

    def narrow(self, st, n, inner, v):
        a, b = strip_cv(qt(inner)), strip_cv(qt(n))
        if b in ("short", "short int") and a not in ("short", "short int", "bool"):
            self.narrowings.setdefault((self.frames[-1].name, self.curline, v.nid), (v, st.pc, tuple(self.loops)))

    def record_value(self, st, n):
        try:
            l = self.lv(st, n)
        except AnalysisError:
            return self.rv(st, n)
        while l[0] == "ref":
            l = l[1]
        return self.load_record(st, l)

    def load_any(self, st, l):
        return self.load(st, l)

    def load_record(self, st, l):
        _, o, idx, f = l
        if o.kind == "rec":
            return Rec(st.mem[o.id])
        d = self.prog.records.get(strip_cv(o.etype))
        if o.kind == "cells" and isinstance(st.mem[o.id][0], Rec):
            return st.mem[o.id][0]
        if d is None:
            raise AnalysisError("record copy of " + o.etype)
        return Rec({c["name"]: self.load(st, ("loc", o, idx, c["name"])) for c in d["inner"] if c["kind"] == "FieldDecl"})

    def addr(self, l):
        if l[0] == "ref":
            return self.addr(l[1])
        if l[0] == "phi":
            return PhiPtr(l[1], self.addr(l[2]), self.addr(l[3]))
        return Ptr(l[1], l[2], l[3])

    def binop(self, st, n):
        g = self.g
        op = n["opcode"]
        if op == "=":
            l = self.assign(st, n)
            return self.load(st, l) if self.want_value else None
        if op == ",":
            self.rv(st, n["inner"][0])
            return self.rv(st, n["inner"][1])
        if op in ("&&", "||"):
            return g.boolnode(self.cond(st, n))
        a, b = self.rv(st, n["inner"][0]), self.rv(st, n["inner"][1])
        ta = qt(n["inner"][0])
        if isinstance(a, (Ptr, PhiPtr, NullPtr)) or isinstance(b, (Ptr, PhiPtr, NullPtr)):
            if op in ("+", "-") and isinstance(b, Node):
                return self.padd(a, b if op == "+" else g.neg(b), ta)
            if op == "+" and isinstance(a, Node):
                return self.padd(b, a, qt(n["inner"][1]))
            if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return g.div(g.sub(a.off, b.off), g.const(scalars(pointee(ta))))
            if op in ("==", "!="):
                r = self.ptr_eq(a, b)
                return g.boolnode(r if op == "==" else g.b_not(r))
            if op in ("<", ">", "<=", ">=") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
            else:
                raise AnalysisError("pointer operation %s line %s" % (op, self.curline))
        return self.arith(op, self.tonode(a), self.tonode(b), qt(n), ta, qt(n["inner"][1]))

    def ptr_eq(self, a, b):
        if isinstance(a, PhiPtr):
            return self.g.ite(a.c, self.ptr_eq(a.a, b), self.ptr_eq(a.b, b))
        if isinstance(b, PhiPtr):
            return self.ptr_eq(b, a)
        if isinstance(a, NullPtr) and isinstance(b, NullPtr):
            return 1
        if isinstance(a, NullPtr) or isinstance(b, NullPtr):
            return 0
        if a.obj is not b.obj:
            return 0
        return self.g.b_eq0(self.g.sub(a.off, b.off))

    def arith(self, op, a, b, t, ta, tb):
        g = self.g
        if op == "+":
            return g.add(a, b)
        if op == "-":
            return g.sub(a, b)
        if op == "*":
            return g.mul(a, b)
        if op == "/":
            if is_int(t):
                if a.op == "const" and b.op == "const" and b.val != 0:
                    q = abs(a.val) // abs(b.val)
                    return g.const(q if (a.val >= 0) == (b.val >= 0) else -q)
                q = self.integral(a, b)
                if isinstance(q, Node):
                    return q
                return g.fn("idiv", (a, b), isint=True)
            return g.div(a, b)
        if op == "%":
            if b.op == "const" and b.val > 0:
                k = int(b.val)
                lv = self.liftmap(a, lambda c: Fraction(int(c) - k * int(Fraction(int(c), k).__trunc__())))
                if lv is not None:
                    return lv
            return g.fn("mod", (a, b), isint=True)
        isi = (is_int(ta) or is_bool(ta)) and (is_int(tb) or is_bool(tb))
        isi = isi or (a.isint and b.isint)
        if op == "<":
            return g.boolnode(g.b_lt0(g.sub(a, b), isi))
        if op == ">":
            return g.boolnode(g.b_lt0(g.sub(b, a), isi))
        if op == "<=":
            return g.boolnode(g.b_not(g.b_lt0(g.sub(b, a), isi)))
        if op == ">=":
            return g.boolnode(g.b_not(g.b_lt0(g.sub(a, b), isi)))
        if op == "==":
            return g.boolnode(self.eqb(a, b, ta, tb))
        if op == "!=":
            return g.boolnode(g.b_not(self.eqb(a, b, ta, tb)))
        if op in ("&", "|", "^") and (is_bool(ta) or a.op in ("bool", "const")) and b.op in ("bool", "const"):
            x, y = g.tobdd(a), g.tobdd(b)
            return g.boolnode(g.b_and(x, y) if op == "&" else g.b_or(x, y) if op == "|" else g.ite(x, g.b_not(y), y))
        if op in ("<<", ">>"):
            if b.op == "const" and op == "<<":
                return g.mul(a, g.const(2 ** int(b.val)))
        raise AnalysisError("operator %s line %s" % (op, self.curline))

    def eqb(self, a, b, ta, tb):
        g = self.g
        if a.op == "bool" or b.op == "bool":
            if a.op in ("bool", "const") and b.op in ("bool", "const"):
                x, y = g.tobdd(a), g.tobdd(b)
                return g.ite(x, y, g.b_not(y))
        return g.b_eq0(g.sub(a, b))

    def assign(self, st, n):
        g = self.g
        op = n["opcode"]
        L, R = n["inner"]
        if op == "=":
            r = self.rv(st, R) if not (strip_cv(qt(L)) in self.prog.records) else self.record_value(st, R)
            l = self.lv(st, L)
            if isinstance(r, Rec):
                self.store_record(st, l, r)
                return l
            # x = x + v  is an accumulation as well
            ll = l
            while ll[0] == "ref":
                ll = ll[1]
            if ll[0] == "loc" and ll[1].kind == "big" and isinstance(r, Node) and is_float(qt(L)):
                d = self.self_delta(st, ll, L, R, r)
                if d is not None:
                    self.accumulate(st, ll, d)
                    return l
            self.store(st, l, r)
            return l
        r = self.rv(st, R)
        l = self.lv(st, L)
        o = op[:-1]
        ll = l
        while ll[0] == "ref":
            ll = ll[1]
        if o in ("+", "-") and isinstance(r, Node):
            if ll[0] == "loc" and ll[1].kind == "big":
                self.accumulate(st, ll, r if o == "+" else g.neg(r))
                return l
        v = self.load(st, l)
        if isinstance(v, (Ptr, PhiPtr)):
            self.store(st, l, self.padd(v, r if o == "+" else g.neg(r), qt(L)))
            return l
        t = n.get("computeResultType", n["type"])
        t = t.get("desugaredQualType", t["qualType"])
        self.store(st, l, self.arith(o, self.tonode(v), self.tonode(r), t, qt(L), qt(R)))
        return l

    def self_delta(self, st, loc, L, R, r):
        """delta when R is syntactically  L + e, e + L or L - e  (same lvalue)"""
        x = R
        while x["kind"] in ("ParenExpr", "ImplicitCastExpr") and x.get("castKind", "NoOp") in ("NoOp", "FloatingCast"):
            x = x["inner"][0]
        if x["kind"] != "BinaryOperator" or x["opcode"] not in ("+", "-"):
            return None
        def leaf(y):
            while y["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                y = y["inner"][0]
            return y
        terms = []

        def flat(y, s):
            z = y
            while z["kind"] == "ParenExpr":
                z = z["inner"][0]
            if z["kind"] == "BinaryOperator" and z["opcode"] in ("+", "-"):
                flat(z["inner"][0], s)
                flat(z["inner"][1], s if z["opcode"] == "+" else -s)
            else:
                terms.append((z, s))
        flat(x, 1)
        hit = None
        for z, s in terms:
            y = leaf(z)
            if s == 1 and y["kind"] == leaf(L)["kind"] and y["kind"] in ("ArraySubscriptExpr", "UnaryOperator") and is_float(qt(y)):
                try:
                    l2 = self.lv(st, y)
                except AnalysisError:
                    continue
                while l2[0] == "ref":
                    l2 = l2[1]
                if l2[0] == "loc" and l2[1] is loc[1] and l2[2] is loc[2] and l2[3] == loc[3]:
                    hit = z
                    break
        if hit is None:
            return None
        d = self.g.ZERO
        for z, s in terms:
            if z is hit:
                hit = None
                continue
            v = self.tonode(self.rv(st, z))
            d = self.g.add(d, v if s == 1 else self.g.neg(v))
        return d

    def store_record(self, st, l, r):
        while l[0] == "ref":
            l = l[1]
        _, o, idx, f = l
        if o.kind == "rec":
            st.mem[o.id] = Rec(r)
        elif o.kind == "cells":
            st.mem[o.id] = (r,)
        else:
            for k, v in r.items():
                self.store(st, ("loc", o, idx, k), v)

    # ---- calls
    def rv_call(self, st, n):
        g = self.g
        f = n["inner"][0]
        args = n["inner"][1:]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        if f["kind"] != "DeclRefExpr":
            raise AnalysisError("indirect call line %s" % self.curline)
        rd = f["referencedDecl"]
        d = self.prog.resolve(rd)
        name = rd["name"]
        if d is not None:
            return self.call(st, d, args, n)
        if name in ("floor", "ceil", "sqrt", "abs", "fabs", "trunc", "round", "lround", "exp", "log", "sin", "cos", "pow", "isnan", "isinf", "isfinite", "rint", "nearbyint", "lrint"):
            a = [self.tonode(self.rv(st, x)) for x in args]
            if name == "floor":
                return g.floor(a[0])
            if name == "ceil":
                return g.ceil(a[0])
            if name == "sqrt":
                return g.sqrt(a[0])
            if name in ("abs", "fabs"):
                return g.sel(g.b_lt0(a[0], a[0].isint), g.neg(a[0]), a[0])
            if name == "pow" and a[1].op == "const" and a[1].val.denominator == 1 and 0 <= a[1].val <= 8:
                r = g.ONE
                for _ in range(int(a[1].val)):
                    r = g.mul(r, a[0])
                return r
            if name in ("isnan", "isinf"):
                return g.boolnode(g.b_atom(name, a[0]))
            if name == "isfinite":
                return g.boolnode(g.b_not(g.b_or(g.b_atom("isnan", a[0]), g.b_atom("isinf", a[0]))))
            return g.fn("opaque:" + name, a, isint=name in ("lround", "lrint"))
        if name in ("min", "max", "fmin", "fmax"):
            a, b = [self.tonode(self.rv(st, x)) for x in args[:2]]
            c = g.b_lt0(g.sub(b, a), a.isint and b.isint) if name in ("min", "fmin") else g.b_lt0(g.sub(a, b), a.isint and b.isint)
            return g.sel(self.simp_b(st, c), b, a)
        if name == "clamp":
            v, lo, hi = [self.tonode(self.rv(st, x)) for x in args[:3]]
            v = g.sel(self.simp_b(st, g.b_lt0(g.sub(v, lo), v.isint and lo.isint)), lo, g.sel(self.simp_b(st, g.b_lt0(g.sub(hi, v), v.isint and hi.isint)), hi, v))
            return v
        if name == "swap":
            a, b = self.lv(st, args[0]), self.lv(st, args[1])
            va, vb = self.load(st, a), self.load(st, b)
            self.store(st, a, vb)
            self.store(st, b, va)
            return None
        if name in ("move", "forward"):
            return self.rv(st, args[0])
        if name == "infinity":
            return g.sym("inf")
        if name in ("max", "min", "lowest", "epsilon", "quiet_NaN"):
            return g.sym("limit:" + name)
        if name == "fill":
            b, e = self.rv(st, args[0]), self.rv(st, args[1])
            v = self.tonode(self.rv(st, args[2]))
            if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj):
                raise AnalysisError("fill")
            self.family(st, b, g.sub(e.off, b.off), lambda bnd: v)
            return None
        if name in ("fill_n",):
            b = self.rv(st, args[0])
            c = self.tonode(self.rv(st, args[1]))
            v = self.tonode(self.rv(st, args[2]))
            self.family(st, b, c, lambda bnd: v)
            return None
        if name in ("memcpy", "memmove", "__builtin_memcpy"):
            dst, src = self.rv(st, args[0]), self.rv(st, args[1])
            cnt = self.tonode(self.rv(st, args[2]))
            sz = self.tsize(array_dims(dst.obj.etype)[0])
            N = g.div(cnt, g.const(sz))
            self.copy(st, dst, src, N)
            return None
        if name in ("memset", "__builtin_memset"):
            dst = self.rv(st, args[0])
            v = self.tonode(self.rv(st, args[1]))
            cnt = self.tonode(self.rv(st, args[2]))
            if v is not g.ZERO:
                raise AnalysisError("memset with non-zero")
            N = g.div(cnt, g.const(self.tsize(array_dims(dst.obj.etype)[0])))
            self.family(st, dst, N, lambda b: g.ZERO)
            return None
        if name in ("copy", "copy_n"):
            a = [self.rv(st, x) for x in args]
            if name == "copy":
                self.copy(st, a[2], a[0], g.sub(a[1].off, a[0].off))
            else:
                self.copy(st, a[2], a[0], self.tonode(a[1]))
            return None
        if name in ("sort", "stable_sort"):
            return self.sort(st, args)
        if name in ("printf", "fprintf", "puts", "flush", "endl"):
            return g.ZERO
        if name == "accumulate" and len(args) == 3:
            pass
        raise AnalysisError("call of unknown function %s line %s" % (name, self.curline))

    def copy(self, st, dst, src, N):
        g = self.g
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr)):
            if isinstance(src, PhiPtr):
                raise AnalysisError("copy from conditional pointer")
            raise AnalysisError("copy of %r to %r" % (src, dst))
        self.family(st, dst, N, lambda b: self.load(st, ("loc", src.obj, g.add(src.off, b), src.field)))

    def family(self, st, p, N, f):
        g = self.g
        if p.obj.kind == "cells" or (N.op == "const" and N.val <= 16):
            if N.op != "const":
                raise AnalysisError("fill of a small array with symbolic size")
            for i in range(int(N.val)):
                self.store(st, ("loc", p.obj, g.add(p.off, g.const(i)), p.field), f(g.const(i)))
            return
        lp = Loop(None, self.frames[-1].name)
        lp.N = N
        lp.depth = self.depth_for(N)
        lp.binder = g.fn("bnd:%d" % lp.depth, (N,), isint=True)
        self.loops.append(lp)
        v = f(lp.binder)
        idx = g.add(p.off, lp.binder)
        self.access(st, p.obj, idx, p.field, True)
        self.loops.pop()
        st.mem[p.obj.id] = Log(st.mem[p.obj.id], "store", idx, v, 1, ((lp.binder, N),), p.field, self.site(), chain=(lp,))

    def depth_for(self, N):
        return sum(1 for l in self.loops if l.N is N)

    def sort(self, st, args):
        g = self.g
        b, e = self.rv(st, args[0]), self.rv(st, args[1])
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj):
            raise AnalysisError("sort")
        cmpdig = g.sym("cmp:less")
        if len(args) > 2:
            c = self.rv(st, args[2])
            d = None
            if isinstance(c, Rec):
                rec = self.prog.records[c["__type__"]]
                for m in rec["inner"]:
                    if m["kind"] == "CXXMethodDecl" and m["name"] == "operator()":
                        d = m
            elif isinstance(c, FunVal):
                d = c.decl
            if d is None:
                raise AnalysisError("sort comparator")
            cmpdig = self.comparator(st, d, b.obj)
        # contents being sorted: every field read at a generic position
        pos = g.fn("bnd:sort", (g.sub(e.off, b.off),), isint=True)
        rec = self.prog.records.get(strip_cv(b.obj.etype))
        fields = [c["name"] for c in rec["inner"] if c["kind"] == "FieldDecl"] if rec else [None]
        dig = [cmpdig, g.sub(e.off, b.off)] + [self.tonode(self.load(st, ("loc", b.obj, pos, f))) for f in fields]
        st.mem[b.obj.id] = Log(st.mem[b.obj.id], "perm", extra=(g.fn("sorted", dig), g.sub(e.off, b.off)), site=self.site())
        self.events.append(("sort", b.obj, cmpdig, self.site()))
        return None

    def comparator(self, st, d, obj):
        """digest of the comparison of two generic elements"""
        g = self.g
        s = st.clone()
        ps = params(d)
        fr = Frame(d)
        rec = self.prog.records.get(strip_cv(obj.etype))
        for p, tag in zip(ps, ("left", "right")):
            if rec:
                o = self.new_obj(s, p.get("name", tag), "rec", obj.etype)
                s.mem[o.id] = Rec({c["name"]: g.sym("cmp:%s.%s" % (tag, c["name"]), is_int(qt(c))) for c in rec["inner"] if c["kind"] == "FieldDecl"})
            else:
                o = self.new_obj(s, p.get("name", tag), "cells", obj.etype, 1)
                s.mem[o.id] = (g.sym("cmp:" + tag),)
            fr.env[p["id"]] = ("loc", o, g.ZERO, None)
        self.frames.append(fr)
        out = self.block(s, body(d))
        self.frames.pop()
        r = self.finish(out)
        return r[1]

    def call(self, st, d, args, n=None, extra=None):
        g = self.g
        if len(self.frames) > 30:
            raise AnalysisError("recursion in " + d["name"])
        fr = Frame(d)
        ps = params(d)
        self.stats["calls"] += 1
        self.stats["functions"].add(d["name"])
        line = self.curline
        # default arguments
        for p, a in zip(ps, args):
            if a["kind"] == "CXXDefaultArgExpr" and not a.get("inner"):
                a = [c for c in p["inner"] if c][0]
            t = qt(p)
            if is_ref(t):
                base = strip_cv(t.strip()[:-1])
                try:
                    l = self.lv(st, a)
                except AnalysisError:
                    v = self.rv(st, a)
                    o = self.new_obj(st, p.get("name", "arg"), "rec" if isinstance(v, Rec) else "cells", base, 1)
                    st.mem[o.id] = v if isinstance(v, Rec) else (v,)
                    l = ("loc", o, g.ZERO, None)
                fr.env[p["id"]] = ("ref", l)
            elif strip_cv(t) in self.prog.records:
                o = self.new_obj(st, p.get("name", "arg"), "rec", t)
                st.mem[o.id] = self.rv(st, a)
                fr.env[p["id"]] = ("loc", o, g.ZERO, None)
            else:
                v = self.rv(st, a)
                o = self.new_obj(st, p.get("name", "arg"), "cells", t, 1)
                st.mem[o.id] = (v,)
                fr.env[p["id"]] = ("loc", o, g.ZERO, None)
        if len(args) < len(ps):
            raise AnalysisError("missing arguments in call of " + d["name"])
        return self.run_body(st, fr, d, line)

    def run_body(self, st, fr, d, line=None):
        self.frames.append(fr)
        out = self.block(st, body(d))
        self.frames.pop()
        self.curline = line
        s, v = self.finish(out)
        if s is None:
            st.mem, st.live, st.pc = {}, {}, 0
            st.mem = {}
            raise Dead()
        st.mem, st.live, st.pc = s.mem, s.live, s.pc
        return v

    def finish(self, out):
        """merge normal end and returns of a function body"""
        items = []
        if out.normal is not None:
            items.append((out.normal, None))
        items += [(s, v) for k, s, v in out.abrupt if k == "return"]
        bad = [k for k, s, v in out.abrupt if k not in ("return",)]
        if bad:
            raise AnalysisError("break/continue outside loop")
        if not items:
            return None, None
        s, v = items[0]
        for s2, v2 in items[1:]:
            c = self.g.restrict(s.pc, self.g.b_or(s.pc, s2.pc))
            v = self.join(c, v, v2) if v is not None and v2 is not None else None
            s = self.merge(s, s2)
        return s, v

    def member_call(self, st, n):
        g = self.g
        me = n["inner"][0]
        name = me["name"]
        o = self.vecobj(st, me["inner"][0])
        args = n["inner"][1:]
        if name == "resize":
            N = self.tonode(self.rv(st, args[0]))
            st.mem[("size", o.id)] = N
            o.size = N
            rec = self.prog.records.get(strip_cv(o.etype))
            fields = [c["name"] for c in rec["inner"] if c["kind"] == "FieldDecl"] if rec else [None]
            v = g.ZERO
            if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr":
                v = self.tonode(self.rv(st, args[1]))
            for f in fields:
                self.family(st, Ptr(o, g.ZERO, f), N, lambda b: v)
            return None
        if name in ("reserve", "clear", "shrink_to_fit"):
            return None
        if name in ("begin", "data", "cbegin"):
            return Ptr(o, g.ZERO)
        if name in ("end", "cend"):
            return Ptr(o, self.vsize(st, o))
        if name == "size":
            return self.vsize(st, o)
        if name == "get":
            return Ptr(o, g.ZERO)
        raise AnalysisError("member call %s line %s" % (name, self.curline))

    def operator_call(self, st, n):
        f = n["inner"][0]
        while f["kind"] == "ImplicitCastExpr":
            f = f["inner"][0]
        op = f.get("referencedDecl", {}).get("name")
        if op == "operator<<":
            for a in n["inner"][1:]:
                x = a
                while x["kind"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"):
                    x = x["inner"][0]
                if x["kind"] == "CXXOperatorCallExpr":
                    self.operator_call(st, x)
            return None
        if op == "operator()":
            raise AnalysisError("functor call")
        if op == "operator=":
            raise AnalysisError("operator=")
        return self.load(st, self.lv(st, n))

    def new_expr(self, st, n):
        g = self.g
        t = pointee(qt(n))
        if n.get("isArray"):
            N = self.tonode(self.rv(st, n["inner"][0]))
            o = self.new_obj(st, "heap:%s:%s" % (self.frames[-1].name, self.heapname(n)), "big", t, N, heap=True, site=self.site())
            if len(n["inner"]) > 1:
                self.family(st, Ptr(o, g.ZERO), N, lambda b: g.ZERO)
        else:
            o = self.new_obj(st, "heap", "big", t, g.ONE, heap=True, site=self.site())
            o.newarray = False
        st.live[o.id] = 1
        return Ptr(o, g.ZERO)

    def heapname(self, n):
        return str(n.get("_line", "?"))

    def delete(self, st, p, array=True, cond=1):
        g = self.g
        if isinstance(p, NullPtr):
            return
        if isinstance(p, PhiPtr):
            self.delete(st, p.a, array, g.b_and(cond, p.c))
            self.delete(st, p.b, array, g.b_and(cond, g.b_not(p.c)))
            return
        o = p.obj
        if p.off is not self.g.ZERO or not o.heap:
            self.events.append(("bad-delete", o, None, self.site()))
            return
        if array != o.newarray:
            self.events.append(("delete-kind", o, None, self.site()))
        lv = st.live.get(o.id, 0)
        if not g.implies(g.b_and(st.pc, cond), lv):
            self.events.append(("double-delete", o, None, self.site()))
        st.live[o.id] = g.b_and(lv, g.b_not(cond))

    def do_throw(self, st, n):
        leaked = [self.objs[i] for i, b in st.live.items() if self.g.b_and(b, st.pc) != 0]
        ctx = tuple(self.loops)
        self.throws.append((self.site(), st.pc, leaked, ctx, tuple(f.name for f in self.frames)))
        raise Dead()

    # ---- statements
    def block(self, st, n):
        """execute statement n from st -> Out(normal state or None, abrupt [(kind, state, value)])"""
        try:
            return self._stmt(st, n)
        except Dead:
            return Out(None, [])

    def _stmt(self, st, n):
        k = n["kind"]
        g = self.g
        self.stats["stmts"] += 1
        if "_line" in n:
            self.curline = n["_line"]
        if k == "CompoundStmt":
            abrupt = []
            cur = st
            for c in n.get("inner", ()):
                o = self.block(cur, c)
                abrupt += o.abrupt
                cur = o.normal
                if cur is None:
                    break
            return Out(cur, abrupt)
        if k == "DeclStmt":
            for d in n.get("inner", ()):
                if d["kind"] == "VarDecl":
                    init = [c for c in d.get("inner", ()) if c and c["kind"] not in ("FullComment",)]
                    self.declare_into(st, d, init[0] if init else None)
            return Out(st, [])
        if k == "IfStmt":
            inner = n["inner"]
            if n.get("hasInit"):
                self._stmt(st, inner[0])
                inner = inner[1:]
            if n.get("hasVar"):
                self._stmt(st, inner[0])
                inner = inner[1:]
            c = self.cond(st, inner[0])
            if c == 1:
                return self.block(st, inner[1])
            if c == 0:
                return self.block(st, inner[2]) if n.get("hasElse") else Out(st, [])
            s1, s2 = st.clone(), st
            s1.pc = g.b_and(st.pc, c)
            s2.pc = g.b_and(st.pc, g.b_not(c))
            o1 = self.block(s1, inner[1])
            o2 = self.block(s2, inner[2]) if n.get("hasElse") else Out(s2, [])
            return Out(self.merge(o1.normal, o2.normal), o1.abrupt + o2.abrupt)
        if k == "ForStmt":
            init, _, cond, inc, bdy = (n["inner"] + [None] * 5)[:5]
            if init and init.get("kind"):
                o = self._stmt(st, init)
                st = o.normal
            return self.loop(st, n, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, bdy)
        if k == "WhileStmt":
            return self.loop(st, n, n["inner"][0], None, n["inner"][1])
        if k == "DoStmt":
            # body once, then while
            o = self.block(st, n["inner"][0])
            if any(kk in ("break", "continue") for kk, _, _ in o.abrupt):
                raise AnalysisError("break/continue in do loop")
            if o.normal is None:
                return o
            o2 = self.loop(o.normal, n, n["inner"][1], None, n["inner"][0])
            return Out(o2.normal, o.abrupt + o2.abrupt)
        if k == "ReturnStmt":
            v = None
            if n.get("inner"):
                e = n["inner"][0]
                if strip_cv(qt(e)) in self.prog.records:
                    v = self.rv(st, e)
                else:
                    v = self.rv(st, e)
            return Out(None, [("return", st, v)])
        if k == "ContinueStmt":
            return Out(None, [("continue", st, None)])
        if k == "BreakStmt":
            return Out(None, [("break", st, None)])
        if k == "NullStmt":
            return Out(st, [])
        if k == "CXXTryStmt":
            raise AnalysisError("try statement")
        if k == "SwitchStmt":
            return self.switch(st, n)
        # expression statement
        w = self.want_value
        self.want_value = False
        try:
            e = n
            while e["kind"] in ("ExprWithCleanups", "ParenExpr"):
                e = e["inner"][0]
            if e["kind"] in ("BinaryOperator", "CompoundAssignOperator") and e["opcode"] == ",":
                parts = []

                def flat(x):
                    while x["kind"] == "ParenExpr":
                        x = x["inner"][0]
                    if x["kind"] == "BinaryOperator" and x["opcode"] == ",":
                        flat(x["inner"][0])
                        flat(x["inner"][1])
                    else:
                        parts.append(x)
                flat(e)
                for x in parts:
                    self.rv(st, x)
            elif e["kind"] in ("BinaryOperator", "CompoundAssignOperator") and e["opcode"].endswith("=") and e["opcode"] not in ("==", "<=", ">=", "!="):
                self.want_value = True
                self.assign(st, e)
            else:
                self.rv_stmt(st, e)
        finally:
            self.want_value = w
        return Out(st, [])

    def rv_stmt(self, st, e):
        self.want_value = True
        return self.rv(st, e)

    def switch(self, st, n):
        raise AnalysisError("switch statement")

    def declare_into(self, st, d, init):
        t = qt(d)
        env = self.frames[-1].env
        g = self.g
        if is_ref(t):
            try:
                env[d["id"]] = ("ref", self.lv(st, init))
            except AnalysisError:
                o = self.new_obj(st, d["name"], "cells", strip_cv(t.strip()[:-1]), 1)
                st.mem[o.id] = (self.rv(st, init),)
                env[d["id"]] = ("loc", o, g.ZERO, None)
            return
        o = self.declare(st, d["name"], t, init)
        env[d["id"]] = ("loc", o, g.ZERO, None)

    def declare(self, st, name, t, init):
        g = self.g
        ts = strip_cv(t)
        if ts.startswith("std::vector<") or ts.startswith("vector<"):
            et = ts[ts.index("<") + 1:ts.rindex(">")].split(",")[0]
            o = self.new_obj(st, name, "big", strip_cv(et))
            o.var = (self.frames[-1].name, name)
            st.mem[("size", o.id)] = g.ZERO
            args = [] if init is None else init.get("inner", [])
            while init is not None and init["kind"] in ("ExprWithCleanups",):
                init = init["inner"][0]
                args = init.get("inner", [])
            if args:
                N = self.tonode(self.rv(st, args[0]))
                st.mem[("size", o.id)] = N
                o.size = N
                v = g.ZERO
                if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr":
                    v = self.tonode(self.rv(st, args[1]))
                rec = self.prog.records.get(et)
                fields = [c["name"] for c in rec["inner"] if c["kind"] == "FieldDecl"] if rec else [None]
                for f in fields:
                    self.family(st, Ptr(o, g.ZERO, f), N, lambda b: v)
            return o
        if ts.startswith("std::unique_ptr<") or ts.startswith("unique_ptr<"):
            if init is not None:
                e = init
                while e["kind"] in ("ExprWithCleanups", "CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") :
                    e = e["inner"][0]
                v = self.rv(st, e)
                if isinstance(v, Ptr):
                    v.obj.heap = False
                    st.live.pop(v.obj.id, None)
                    return v.obj
            raise AnalysisError("smart pointer " + ts)
        if ts in self.prog.records:
            o = self.new_obj(st, name, "rec", ts)
            if init is not None and init["kind"] in ("InitListExpr",):
                st.mem[o.id] = self.rv(st, init)
            elif init is not None:
                if init["kind"] == "CXXConstructExpr" and not init.get("inner"):
                    pass
                else:
                    st.mem[o.id] = self.rv(st, init) if init["kind"] == "CXXConstructExpr" else self.record_value(st, init)
            return o
        base, dims = array_dims(ts)
        if dims and "(*)" not in ts:
            n = scalars(ts)
            o = self.new_obj(st, name, "cells" if n <= 64 else "big", base if "*" not in base else base, n)
            if init is not None:
                cells = [None] * n
                pos = [0]

                def fillin(e, n0, sub):
                    # e: initializer for a block of n0 cells
                    while e["kind"] in ("ExprWithCleanups", "ParenExpr"):
                        e = e["inner"][0]
                    if e["kind"] == "InitListExpr":
                        et = pointee(qt(e)) if "[" in qt(e) else None
                        items = e.get("inner")
                        filler = None
                        if "array_filler" in e:
                            items = [x for x in e["array_filler"] if x.get("kind") != "ImplicitValueInitExpr" ]
                        p = sub
                        step = scalars(et) if et else 1
                        for x in items or []:
                            if x.get("kind") == "ImplicitValueInitExpr":
                                for i in range(step):
                                    cells[p + i] = NULL if "*" in base else g.ZERO
                            else:
                                fillin(x, step, p)
                            p += step
                        while p < sub + n0:
                            cells[p] = NULL if "*" in base else g.ZERO
                            p += 1
                    else:
                        cells[sub] = self.rv(st, e)
                fillin(init, n, 0)
                st.mem[o.id] = tuple(cells)
            return o
        o = self.new_obj(st, name, "cells", ts, 1)
        if init is not None:
            e = init
            while e["kind"] == "InitListExpr":
                e = e["inner"][0]
            v = self.rv(st, e)
            st.mem[o.id] = (v,)
            if isinstance(v, Ptr) and v.obj is not None and v.obj.heap and v.obj.var is None:
                v.obj.var = (self.frames[-1].name, name)
        return o

    # ---- loops
    def loop(self, st, n, cond, inc, bdy):
        g = self.g
        abrupt = []
        # concrete trip count: unroll
        cur = st
        it = 0
        brk = []
        probe = cur.clone()
        c = self.cond(probe, cond) if cond is not None else 1
        if c in (0, 1):
            while True:
                c = self.cond(cur, cond) if cond is not None else 1
                if c == 0:
                    break
                if c != 1:
                    raise AnalysisError("loop of mixed known/unknown trip count line %s" % self.curline)
                it += 1
                if it > 200:
                    raise AnalysisError("loop does not terminate in the analysis, line %s" % self.curline)
                o = self.block(cur, bdy)
                conts = [s for k, s, v in o.abrupt if k == "continue"]
                brk += [s for k, s, v in o.abrupt if k == "break"]
                abrupt += [x for x in o.abrupt if x[0] not in ("continue", "break")]
                cur = o.normal
                for s in conts:
                    cur = self.merge(cur, s)
                if cur is None:
                    break
                if inc is not None:
                    self.rv(cur, inc)
            for s in brk:
                cur = self.merge(cur, s)
            return Out(cur, abrupt)
        return self.sym_loop(st, n, cond, inc, bdy)

    def assigned_vars(self, n):
        """declaration ids of variables possibly assigned in a subtree (syntactic over-approximation)"""
        out = set()

        def go(x, rvalue=False):
            k = x.get("kind")
            if k == "ImplicitCastExpr" and x.get("castKind") == "LValueToRValue":
                y = x["inner"][0]
                if y["kind"] == "DeclRefExpr":
                    return
            if k == "DeclRefExpr" and x["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
                out.add(x["referencedDecl"]["id"])
            for c in x.get("inner", ()):
                if c:
                    go(c)
        go(n)
        return out

    def sym_loop(self, st, n, cond, inc, bdy):
        g = self.g
        self.stats["loops"] += 1
        lp0 = None
        carried = set()
        env = dict(self.frames[-1].env)
        pre = st
        W = {}      # (objid, cell) -> 'pre' | ('ind', step)
        hint = self.loop_hint.get(n["id"])
        ids = self.assigned_vars({"inner": [x for x in (bdy, inc) if x]})
        # scalars first: cells of objects directly named in this frame
        named = {}
        for vid in ids:
            l = env.get(vid)
            if l is None:
                continue
            while l[0] == "ref":
                l = l[1]
            if l[0] == "loc" and l[1].kind == "cells" and l[1].id in pre.mem:
                named[vid] = l[1]
                if l[1].size == 1 and not isinstance(pre.mem[l[1].id][0], Ptr):
                    W.setdefault((l[1].id, 0), "pre")
        if hint:
            for (vid, step) in hint:
                if vid in named:
                    W[(named[vid].id, 0)] = ("ind", step)
        mark = (len(self.throws), len(self.events))
        acc0 = dict(self.accesses)
        for attempt in range(12):
            del self.throws[mark[0]:], self.events[mark[1]:]
            self.accesses = dict(acc0)
            lp = Loop(n, self.frames[-1].name)
            lp.carried = set(carried)
            tmpN = g.sym("trip:%d" % len(self.loops), True)
            tb = g.fn("bnd:?", (tmpN,), isint=True)

            def cells_at(b, s):
                for (oid, ci), how in W.items():
                    cells = list(s.mem[oid])
                    v0 = pre.mem[oid][ci]
                    if v0 is None:
                        v0 = self.undef(self.objs[oid], g.const(ci), None)
                    if how == "pre":
                        cells[ci] = self.preatom(lp, oid, ci, v0)
                    else:
                        if isinstance(v0, Ptr):
                            cells[ci] = Ptr(v0.obj, g.add(v0.off, g.mul(how[1], b)), v0.field)
                        else:
                            cells[ci] = g.add(v0, g.mul(how[1], b))
                    s.mem[oid] = tuple(cells)
            # trip count with the induction variables known so far
            s = pre.clone()
            cells_at(tb, s)
            N, direction = None, 1
            if cond is not None:
                w = self.curline
                self.loops.append(lp)
                lp.binder = None
                c = self.cond(s, cond)
                self.loops.pop()
                N = self.trip(c, tb, lp)
            lp.N = N
            if N is None:
                lp.opaque = True
                lp.binder = g.fn("bnd:w", (g.sym("while:%d" % len(self.loops), True),), isint=True)
                b = lp.binder
            else:
                lp.opaque = False
                lp.depth = self.depth_for(N)
                lp.binder = g.fn("bnd:%d" % lp.depth, (N,), isint=True)
                b = lp.binder
                # run descending loops from their smallest value upwards
                steps = [h[1] for h in W.values() if isinstance(h, tuple)]
                if self.descending(n, W, cond):
                    lp.direction = -1
                    b = g.sub(g.sub(N, g.ONE), lp.binder)
            s = pre.clone()
            for oid, m in list(s.mem.items()):
                if isinstance(m, Log):
                    s.mem[oid] = Log(m, "loopstart", loop=lp)
            cells_at(b, s)
            nobj = Obj.n
            self.loops.append(lp)
            mem0 = dict(s.mem)
            live0 = dict(s.live)
            try:
                if cond is not None:
                    c = self.cond(s, cond)
                    if N is None:
                        s.pc = g.b_and(s.pc, c) if c != 0 else s.pc
                o = self.block(s, bdy)
                conts = [x for k, x, v in o.abrupt if k == "continue"]
                brks = [x for k, x, v in o.abrupt if k == "break"]
                rets = [x for x in o.abrupt if x[0] == "return"]
                end = o.normal
                for x in conts:
                    end = self.merge(end, x)
                if brks or rets:
                    raise AnalysisError("break/return in a loop of unknown trip count, line %s" % self.curline)
                if end is not None and inc is not None:
                    self.rv(end, inc)
            except Dead:
                end = None
            finally:
                self.loops.pop()
            if end is None:
                # body always refuses: nothing after an iteration; loop only exits without iterating
                return Out(pre, [])
            # which cells changed
            again = False
            for oid, m in mem0.items():
                if isinstance(m, tuple) and end.mem.get(oid) is not m:
                    for ci, (x, y) in enumerate(zip(m, end.mem[oid])):
                        if x is not y and not (isinstance(x, Ptr) and x.same(y)) and (oid, ci) not in W:
                            W[(oid, ci)] = "pre"
                            again = True
            if again:
                continue
            # induction variables
            newind = {}
            for (oid, ci), how in W.items():
                x, y = mem0[oid][ci], end.mem[oid][ci]
                if how == "pre":
                    if isinstance(x, Node) and isinstance(y, Node):
                        d = self.delta(y, x)
                        if d is g.ZERO:
                            newind[(oid, ci)] = None
                        elif not self.loopdep(d, lp) and not self.depends(d, lp.binder):
                            newind[(oid, ci)] = d
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj:
                        d = self.delta(y.off, x.off)
                        if d is g.ZERO:
                            newind[(oid, ci)] = None
                        elif not self.loopdep(d, lp) and not self.depends(d, lp.binder):
                            newind[(oid, ci)] = d
                else:
                    xs, ys = (x.off, y.off) if isinstance(x, Ptr) else (x, y)
                    if lp.direction == -1:
                        ok = g.sub(ys, xs) is how[1]
                    else:
                        ok = g.sub(ys, xs) is how[1]
                    if not ok:
                        W[(oid, ci)] = "pre"
                        again = True
            if again:
                continue
            if newind:
                for k, d in newind.items():
                    if d is None:
                        del W[k]
                    else:
                        W[k] = ("ind", d)
                self.loop_hint[n["id"]] = [(vid, W[(ob.id, 0)][1]) for vid, ob in named.items() if isinstance(W.get((ob.id, 0)), tuple)]
                continue
            # loop carried arrays
            nc = self.conflicts(lp, mem0, end)
            if nc - carried:
                carried |= nc
                continue
            return Out(self.close_loop(pre, mem0, end, lp, W, nobj), [])
        raise AnalysisError("loop summary did not stabilise, line %s" % n.get("_line"))

    def preatom(self, lp, oid, ci, v0):
        o = self.objs[oid]
        if isinstance(v0, (Ptr,)):
            return Ptr(v0.obj, self.g.sym("pre:%d:%d:%d" % (lp.uid, oid, ci), True, dep=("pre", lp.uid)), v0.field)
        if isinstance(v0, (PhiPtr, NullPtr)):
            return v0
        return self.g.sym("pre:%d:%d:%d" % (lp.uid, oid, ci), is_int(o.etype), dep=("pre", lp.uid))

    def loopdep(self, n, lp):
        t = ("pre", lp.uid)
        return t in n.deps and any(x.op == "sym" and t in x.deps for x in self.g.walk([n]))

    def delta(self, y, x):
        """y - x, written without x when y = x + d with d free of x"""
        g = self.g
        if x.op == "sym" and x.deps:
            d = g.subst(y, {x: g.ZERO})
            if g.add(x, d) is y:
                return d
        return g.sub(y, x)

    def descending(self, n, W, cond):
        # the loop variable (compared in the condition) has a negative step
        ids = self.assigned_vars(cond) | {x["referencedDecl"]["id"] for x in find(cond, "DeclRefExpr")}
        env = self.frames[-1].env
        for vid in ids:
            l = env.get(vid)
            if l is None:
                continue
            while l[0] == "ref":
                l = l[1]
            if l[0] == "loc":
                h = W.get((l[1].id, 0))
                if isinstance(h, tuple) and h[1].op == "const" and h[1].val < 0:
                    return True
        return False

    def trip(self, c, b, lp):
        """number of iterations for which condition bdd c (in terms of iteration number b) holds, or None"""
        g = self.g
        if c < 2:
            return None
        var, lo, hi = g.bdd_nodes[c]
        if (lo, hi) not in ((0, 1), (1, 0)):
            return None
        kind, p = g.atoms[var]
        if kind not in ("lti", "lt", "eq") or self.loopdep(p, lp):
            return None
        if kind == "eq":
            if (lo, hi) != (1, 0):
                return None
            af = self.affine(p, b)
            if af is None or not (af[0].op == "const" and abs(af[0].val) == 1):
                return None
            return g.neg(g.mul(af[0], af[1]))   # p = s*n + r = 0 at n = -r/s
        if kind == "lt" and not p.isint:
            return None
        if (lo, hi) == (1, 0):
            p = g.sub(g.const(-1), p)  # not(p<0) -> -p-1 < 0
        af = self.affine(p, b)
        if af is None:
            return None
        s, r = af
        if s.op != "const" or s.val <= 0:
            return None
        if s.val == 1:
            return g.neg(r)
        return g.ceil(g.div(g.neg(r), s))

    def conflicts(self, lp, mem0, end):
        """arrays through which an iteration may see what an earlier iteration wrote"""
        g = self.g
        out = set(lp.carried)
        writes = {}
        for oid, m in mem0.items():
            if isinstance(m, Log):
                e = end.mem.get(oid)
                if e is m or e is None:
                    continue
                lst = []
                while e is not m:
                    lst.append(e)
                    e = e.prev
                lst.reverse()
                writes[oid] = lst
        lp.writes = writes
        if lp.opaque:
            return out | {o for o in writes}
        out |= {o for o, lst in writes.items() if any(w.kind in ("seq", "perm") for w in lst)}
        for (obj, r, field, pc) in lp.bigreads:
            if obj.id in out:
                continue
            for w in writes.get(obj.id, ()):
                if w.kind in ("seq", "perm"):
                    out.add(obj.id)
                    break
                if w.field != field:
                    continue
                if w.kind == "acc":
                    out.add(obj.id)
                    break
                if not self.indep(r, w, lp):
                    out.add(obj.id)
                    break
        return out

    def indep(self, r, w, lp):
        g = self.g
        b = lp.binder
        if r is w.idx:
            af = self.affine(r, b)
            return af is not None and af[0] is not g.ZERO
        if not w.binders:
            ar, aw = self.affine(r, b), self.affine(w.idx, b)
            if ar and aw and ar[0] is aw[0] and ar[0].op == "const" and ar[0].val != 0:
                d = g.sub(ar[1], aw[1])
                if d.op == "const" and d.val % ar[0].val != 0:
                    return True
                if d is g.ZERO:
                    return True
            d = g.sub(r, w.idx)
            if d.op == "const" and d.val != 0 and not self.depends(w.idx, b):
                return True
            return False
        # family: same expression up to renaming of inner binders
        m = self.match_binders(w.idx, [x for x, N in w.binders if self.depends(w.idx, x)], dict(w.binders), r)
        if m is not None:
            af = self.affine(r, b)
            return af is not None and af[0] is not g.ZERO
        # disjoint modulo a common constant stride
        mm = Log(None, "store", w.idx, g.ZERO, 1, tuple(w.binders) + ((b, lp.N),), w.field)
        used = [x for x, N in mm.binders if self.depends(w.idx, x)]
        if len(used) == 1:
            b2 = g.fn("bnd:other", (lp.N,), isint=True)
            return self.solve(mm, g.subst(r, {b: b2})) is None
        return False

    def close_loop(self, pre, mem0, end, lp, W, nobj):
        g = self.g
        st = State()
        st.pc = pre.pc
        st.live = {}
        # heap objects: created inside and still live -> leaked every iteration
        for oid, lv in end.live.items():
            if oid > nobj:
                if lv != 0:
                    self.events.append(("leak-in-loop", self.objs[oid], lv, self.site()))
            else:
                if lv != pre.live.get(oid, 0):
                    self.events.append(("delete-in-loop", self.objs[oid], lv, self.site()))
                st.live[oid] = pre.live.get(oid, 0)
        b, N = lp.binder, lp.N
        used_pre = None
        for oid, m in pre.mem.items():
            if oid not in end.mem:
                continue
            if isinstance(m, Log):
                lst = lp.writes.get(oid, [])
                if not lst:
                    st.mem[oid] = m
                    continue
                if lp.opaque or oid in lp.carried:
                    cur = Log(m, "seq", loop=lp, site=self.site(), extra=lst)
                    lp.body_logs[oid] = lst
                    lp.seq = True
                    st.mem[oid] = cur
                    if lp not in self.seqloops:
                        self.seqloops.append(lp)
                    continue
                cur = m
                for e in lst:
                    cur = Log(cur, e.kind, e.idx, e.val, e.guard, e.binders + ((b, N),), e.field, e.site, e.loop, e.extra, e.chain + (lp,), e.org)
                    if e.kind in ("seq", "perm"):
                        raise AnalysisError("nested sequential sweep not carried")
                st.mem[oid] = cur
            elif isinstance(m, tuple):
                cells = list(m)
                for ci in range(len(cells)):
                    how = W.get((oid, ci))
                    if how is None:
                        continue
                    v0 = m[ci]
                    if isinstance(v0, (Ptr, PhiPtr, NullPtr)):
                        if isinstance(how, tuple) and isinstance(v0, Ptr) and N is not None:
                            cells[ci] = Ptr(v0.obj, g.add(v0.off, g.mul(how[1], self.count(N))), v0.field)
                        continue
                    vu = v0 if v0 is not None else self.undef(self.objs[oid], g.const(ci), None)
                    x, y = mem0[oid][ci], end.mem[oid][ci]
                    if lp.opaque:
                        cells[ci] = self.opaque_result(lp, pre, mem0, end, W, oid, ci)
                        continue
                    if isinstance(how, tuple):
                        cells[ci] = g.add(vu, g.mul(how[1], self.count(N)))
                        continue
                    d = self.delta(y, x)
                    if d is g.ZERO:
                        continue
                    if not self.loopdep(d, lp):
                        if self.pre_used_elsewhere(lp, mem0, end, W, oid, ci):
                            raise AnalysisError("running sum %s used inside its loop (line %s) in %s" % (self.objs[oid].name, self.curline, self.pre_used_elsewhere(lp, mem0, end, W, oid, ci)))
                        cells[ci] = g.add(vu, self.sum(b, N, d))
                    elif not self.loopdep(y, lp):
                        last = g.sub(N, g.ONE) if lp.direction == 1 else g.ZERO
                        ran = g.b_lt0(g.neg(N), True)
                        cells[ci] = g.sel(ran, g.subst(y, {b: last}), vu)
                    else:
                        cells[ci] = self.opaque_result(lp, pre, mem0, end, W, oid, ci)
                st.mem[oid] = tuple(cells)
            else:
                if end.mem[oid] is not mem0[oid] and isinstance(m, Rec) and any(end.mem[oid].get(k) is not v for k, v in m.items()):
                    raise AnalysisError("struct modified in a loop")
                st.mem[oid] = m
        return st

    def count(self, N):
        """max(N, 0)"""
        if N.op == "const":
            return self.g.const(max(0, N.val))
        return N   # loops counted with N <= 0 do not iterate; only used for final values of counters

    def pre_used_elsewhere(self, lp, mem0, end, W, oid, ci):
        g = self.g
        x = mem0[oid][ci]
        if not isinstance(x, Node):
            return False
        roots = []
        for o2, lst in lp.writes.items():
            for e in lst:
                if isinstance(e.val, Node):
                    roots.append(e.val)
                if e.idx is not None:
                    roots.append(e.idx)
                if e.guard > 1:
                    roots.append(g.boolnode(e.guard))
        for (o2, c2), how in W.items():
            if (o2, c2) != (oid, ci) and isinstance(end.mem[o2][c2], Node):
                roots.append(end.mem[o2][c2])
        roots = [r for r in roots if ("pre", lp.uid) in r.deps]
        for r in roots:
            if any(n is x for n in g.walk([r])) and g.subst(r, {x: g.add(x, g.ONE)}) is not r:
                return show(r)
        return False

    def opaque_result(self, lp, pre, mem0, end, W, oid, ci):
        """value after a loop that is not summarised: opaque function of its one-step transfer and inputs"""
        g = self.g
        keys = sorted(W)
        ren = {}
        vals = []
        for i, (o2, c2) in enumerate(keys):
            x = mem0[o2][c2]
            if isinstance(x, Node) and ("pre", lp.uid) in x.deps:
                ren[x] = g.sym("step:%d" % i, x.isint)
            v0 = pre.mem[o2][c2]
            vals.append(v0 if isinstance(v0, Node) else g.ZERO)
        steps = []
        for (o2, c2) in keys:
            y = end.mem[o2][c2]
            if isinstance(y, Node):
                steps.append(g.subst(y, ren))
        c = lp.condnode if hasattr(lp, "condnode") else g.ONE
        pos = keys.index((oid, ci))
        # the condition enters through the path condition of the iteration
        pcb = g.subst_bdd(g.restrict(end.pc, pre.pc) if pre.pc != 0 else end.pc, ren)
        return g.fn("opaque:loop%d" % pos, steps + vals + [g.boolnode(pcb)], isint=is_int(self.objs[oid].etype))


class Out:
    __slots__ = ("normal", "abrupt")

    def __init__(self, normal, abrupt):
        self.normal, self.abrupt = normal, abrupt


class Dead(Exception):
    pass


def find(n, kind):
    out = []
    st = [n]
    while st:
        x = st.pop()
        if not x:
            continue
        if x.get("kind") == kind:
            out.append(x)
        st += list(x.get("inner", ()))
    return out
