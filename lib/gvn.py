"""Value numbering domain: hash-consed expressions over exact (field) arithmetic with gated joins.

A program value is a node of an expression graph.  Two nodes get the same value number when they are equal as
rational functions of their atoms (inputs, loop indices, array elements, opaque functions): the number is the
vector of residues of the expression at fixed pseudo-random points of a prime field (random interpretation,
Gulwani & Necula 2003/2004), so sums may be reordered, factored or split over temporaries without changing it.
Conditions are ROBDDs over comparison atoms; joins of control flow are gated nodes sel(c, a, b).
"""
import hashlib, itertools
import numpy as np
from fractions import Fraction

P = (1 << 31) - 1
PU = np.uint64(P)
NL = 24  # lanes used for value numbers


def mulm(a, b):
    return (a * b) % PU


def addm(a, b):
    return (a + b) % PU


def negm(a):
    return (PU - a) % PU


def rootm(x):
    """(r, out): square roots; where x has none in the field, r is a constant multiple of the root of -x"""
    r = powm(x, (P + 1) // 4)
    out = mulm(r, r) != x
    if out.any():
        r = np.where(out, mulm(r, np.uint64(1181783497) + np.zeros_like(r)), r)
    return r, out


def powm(a, e):
    r = np.ones_like(a)
    b = a.copy()
    while e:
        if e & 1:
            r = mulm(r, b)
        b = mulm(b, b)
        e >>= 1
    return r


def invm(a):
    return powm(a, P - 2)


_C1 = np.uint64(0xBF58476D1CE4E5B9)
_C2 = np.uint64(0x94D049BB133111EB)
_C3 = np.uint64(0x9E3779B97F4A7C15)


def splitmix(x):
    x = x + _C3
    x = (x ^ (x >> np.uint64(30))) * _C1
    x = (x ^ (x >> np.uint64(27))) * _C2
    return x ^ (x >> np.uint64(31))


def strseed(s):
    return np.uint64(int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "little"))


def hash_lanes(name, args, lane_ids):
    with np.errstate(over="ignore"):
        h = splitmix(lane_ids ^ strseed(name))
        for i, a in enumerate(args):
            h = splitmix(h * _C1 + a + np.uint64(i + 1))
    return h


class AnalysisError(Exception):
    """The analysis cannot interpret the code (reported as an error of the check, never as a verdict)."""


class Node:
    __slots__ = ("op", "args", "val", "lanes", "key", "nid", "isint", "deps", "negkey", "isbool", "__weakref__")

    def __repr__(self):
        return show(self)


def small_ratio(r):
    """the rational a/b with small a, b whose residue is r, or None"""
    a0, a1, s0, s1 = P, r, 0, 1
    while a1 > 4000:
        q = a0 // a1
        a0, a1, s0, s1 = a1, a0 - q * a1, s1, s0 - q * s1
    if s1 == 0 or abs(s1) > 4000:
        return None
    return Fraction(a1, s1)


# ---------------------------------------------------------------- graph


class Graph:
    def __init__(self):
        self.canonical_extrema = False   # see sel; term equality (G01-G05) relies on forms that commute with substitution
        self.lane_ids = splitmix(np.arange(1, NL + 1, dtype=np.uint64) * np.uint64(7919))
        self.table = {}   # lanes key -> node
        self.ctab = {}    # structural key -> node
        self.count = 0
        # bdd
        self.bdd_unique = {}
        self.bdd_nodes = [None, None]          # id -> (var, lo, hi)
        self.bdd_lanes = [np.zeros(NL, np.uint64), np.ones(NL, np.uint64)]
        self.bdd_deps = [frozenset(), frozenset()]
        self.bdd_cache = {}
        self.atoms = []                        # var -> (kind, node, isint)
        self.atom_tab = {}
        self._equal = {}
        self.decided = {"scenarios": 0, "undecided": 0}
        self._scale = {}
        self.atom_lanes = []
        self.ties = True
        self._subst_cache = {}
        for i in range(-40, 100):
            self.const(i)
        for d in (2, 3, 4, 8):
            for s in (1, -1):
                self.const(Fraction(s, d))
        self.ZERO = self.const(0)
        self.ONE = self.const(1)

    # -- creation
    def _intern(self, op, args, val, lanes, isint, deps, isbool=False):
        key = lanes.tobytes()
        n = self.table.get(key)
        if n is not None:
            if isint and not n.isint:
                n.isint = True
            if len(deps) < len(n.deps) and deps < n.deps:
                # same value with fewer dependences: keep the simpler expression
                n.op, n.args, n.val, n.deps = op, args, val, deps
            return n
        n = Node()
        n.op, n.args, n.val, n.lanes, n.key, n.isint, n.deps, n.isbool = op, args, val, lanes, key, isint, deps, isbool
        n.nid = self.count
        self.count += 1
        self.table[key] = n
        return n

    def const(self, v):
        v = Fraction(v)
        sk = ("const", v)
        n = self.ctab.get(sk)
        if n is None:
            r = (v.numerator % P) * pow(v.denominator % P, P - 2, P) % P
            n = self._intern("const", (), v, np.full(NL, r, np.uint64), v.denominator == 1, frozenset())
            self.ctab[sk] = n
        return n

    def sym(self, name, isint=False, dep=None):
        sk = ("sym", name)
        n = self.ctab.get(sk)
        if n is None:
            lanes = hash_lanes("sym:" + name, [], self.lane_ids) % PU
            n = self._intern("sym", (), name, lanes, isint, frozenset([dep]) if dep else frozenset())
            self.ctab[sk] = n
        return n

    def add(self, a, b):
        if a is self.ZERO:
            return b
        if b is self.ZERO:
            return a
        if a.nid > b.nid:
            a, b = b, a
        sk = ("add", a.nid, b.nid)
        n = self.ctab.get(sk)
        if n is None:
            n = self._intern("add", (a, b), None, addm(a.lanes, b.lanes), a.isint and b.isint, a.deps | b.deps)
            self.ctab[sk] = n
        return n

    def mul(self, a, b):
        if a is self.ZERO or b is self.ZERO:
            return self.ZERO
        if a is self.ONE:
            return b
        if b is self.ONE:
            return a
        if a.nid > b.nid:
            a, b = b, a
        if a.op == "bool" and b.op == "bool":
            return self.boolnode(self.b_and(a.val, b.val))
        if a.op == "bool":
            return self.sel(a.val, b, self.ZERO)
        if b.op == "bool":
            return self.sel(b.val, a, self.ZERO)
        sk = ("mul", a.nid, b.nid)
        n = self.ctab.get(sk)
        if n is None:
            n = self._intern("mul", (a, b), None, mulm(a.lanes, b.lanes), a.isint and b.isint, a.deps | b.deps)
            self.ctab[sk] = n
        return n

    def neg(self, a):
        return self.mul(self.const(-1), a)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def recip(self, a):
        if a.op == "const":
            if a.val == 0:
                return self.fn("recip0", ())
            return self.const(1 / a.val)
        sk = ("recip", a.nid)
        n = self.ctab.get(sk)
        if n is None:
            n = self._intern("recip", (a,), None, invm(a.lanes), False, a.deps)
            self.ctab[sk] = n
        return n

    def div(self, a, b):
        return self.mul(a, self.recip(b))

    def sqrt(self, a):
        sk = ("sqrt", a.nid)
        n = self.ctab.get(sk)
        if n is None:
            n = self._intern("sqrt", (a,), None, rootm(a.lanes)[0], False, a.deps)
            self.ctab[sk] = n
        return n

    def fn(self, name, args, isint=False, dep=None):
        args = tuple(args)
        sk = ("fn", name) + tuple(a.nid for a in args)
        n = self.ctab.get(sk)
        if n is None:
            lanes = hash_lanes("fn:" + name, [a.lanes for a in args], self.lane_ids) % PU
            deps = frozenset().union(*[a.deps for a in args]) if args else frozenset()
            if name.startswith("bnd:"):
                deps = deps | {(name, args[0].nid)}
            n = self._intern("fn", args, name, lanes, isint, deps)
            self.ctab[sk] = n
        return n

    def floor(self, a):
        if a.isint:
            return a
        if a.op == "const":
            return self.const(a.val.numerator // a.val.denominator)
        return self.fn("floor", (a,), isint=True)

    def ceil(self, a):
        if a.isint:
            return a
        if a.op == "const":
            return self.const(-((-a.val.numerator) // a.val.denominator))
        return self.fn("ceil", (a,), isint=True)

    # -- booleans
    def atom(self, kind, node):
        k = (kind, node.nid)
        v = self.atom_tab.get(k)
        if v is None:
            v = len(self.atoms)
            self.atom_tab[k] = v
            self.atoms.append((kind, node))
            self.atom_lanes.append(hash_lanes("atom:" + kind, [node.lanes], self.lane_ids) % PU)
        return v

    def mk(self, var, lo, hi):
        if lo == hi:
            return lo
        k = (var, lo, hi)
        i = self.bdd_unique.get(k)
        if i is None:
            i = len(self.bdd_nodes)
            self.bdd_nodes.append(k)
            x = self.atom_lanes[var]
            self.bdd_lanes.append(addm(mulm(x, self.bdd_lanes[hi]), mulm(addm(np.uint64(1), negm(x)), self.bdd_lanes[lo])))
            self.bdd_deps.append(self.bdd_deps[lo] | self.bdd_deps[hi] | self.atoms[var][1].deps)
            self.bdd_unique[k] = i
        return i

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.bdd_cache.get(k)
        if r is not None:
            return r
        N = self.bdd_nodes
        v = min(N[x][0] for x in (f, g, h) if x > 1)

        def cof(x, b):
            if x > 1 and N[x][0] == v:
                return N[x][2] if b else N[x][1]
            return x
        r = self.mk(v, self.ite(cof(f, 0), cof(g, 0), cof(h, 0)), self.ite(cof(f, 1), cof(g, 1), cof(h, 1)))
        self.bdd_cache[k] = r
        return r

    def b_and(self, a, b):
        return self.ite(a, b, 0)

    def b_or(self, a, b):
        return self.ite(a, 1, b)

    def restrict(self, f, care):
        """a small bdd equal to f wherever care holds (Coudert & Madre)"""
        if care == 0 or f < 2 or care == 1:
            return f
        k = ("restrict", f, care)
        r = self.bdd_cache.get(k)
        if r is not None:
            return r
        if self.b_and(f, care) == 0:
            r = 0
        elif self.implies(care, f):
            r = 1
        else:
            fv, cv = self.bdd_nodes[f][0], self.bdd_nodes[care][0]
            if cv < fv:
                r = self.restrict(f, self.ite(self.bdd_nodes[care][1], 1, self.bdd_nodes[care][2]))
            else:
                _, flo, fhi = self.bdd_nodes[f]
                clo, chi = (self.bdd_nodes[care][1], self.bdd_nodes[care][2]) if cv == fv else (care, care)
                if clo == 0:
                    r = self.restrict(fhi, chi)
                elif chi == 0:
                    r = self.restrict(flo, clo)
                else:
                    r = self.mk(fv, self.restrict(flo, clo), self.restrict(fhi, chi))
        self.bdd_cache[k] = r
        return r

    def b_not(self, a):
        return self.ite(a, 0, 1)

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def boolnode(self, b):
        if b == 0:
            return self.ZERO
        if b == 1:
            return self.ONE
        sk = ("bool", b)
        n = self.ctab.get(sk)
        if n is None:
            n = self._intern("bool", (), b, self.bdd_lanes[b], True, self.bdd_deps[b], True)
            self.ctab[sk] = n
        return n

    def tobdd(self, n):
        """truth of a node used as a condition"""
        if n.op == "const":
            return 1 if n.val != 0 else 0
        if n.op == "bool":
            return n.val
        if n.op == "sel":
            return self.ite(n.val, self.tobdd(n.args[0]), self.tobdd(n.args[1]))
        return self.b_not(self.b_eq0(n))

    def b_atom(self, kind, node):
        return self.mk(self.atom(kind, node), 0, 1)

    def b_lt0(self, p, isint):
        """[p < 0]"""
        if p.op == "const":
            return 1 if p.val < 0 else 0
        if p.op == "sel":
            return self.ite(p.val, self.b_lt0(p.args[0], isint), self.b_lt0(p.args[1], isint))
        if isint:
            q = self.sub(self.const(-1), p)   # p<0  <=>  not (-p-1 < 0)
            if q.op != "const" and tuple(q.lanes[:2]) < tuple(p.lanes[:2]):
                return self.b_not(self.b_atom("lti", q))
            return self.b_atom("lti", p)
        if p.op == "mul":
            # sign of a product with a selected constant: decide the selection first
            fs, st = [], [p]
            while st and len(fs) < 8:
                x = st.pop()
                if x.op == "mul":
                    st += [x.args[1], x.args[0]]
                else:
                    fs.append(x)
            fs += st
            for i, x in enumerate(fs):
                if x.op == "sel" and (x.args[0].op == "const" and x.args[1].op == "const" or self.ZERO in x.args or
                                      all(y.op == "const" for y in fs if y is not x)):
                    r = self.ONE
                    for j, y in enumerate(fs):
                        if j != i:
                            r = self.mul(r, y)
                    return self.ite(x.val, self.b_lt0(self.mul(r, x.args[0]), isint), self.b_lt0(self.mul(r, x.args[1]), isint))
        r = self.unscaled(p)
        if not self.ties:      # exact zeros of real quantities are left aside: p < 0 is the negation of -p < 0
            q = self.unscaled(self.neg(p))
            if tuple(q.lanes[:2]) < tuple(r.lanes[:2]):
                return self.b_not(self.b_atom("lt", q))
        return self.b_atom("lt", r)

    def unscaled(self, p):
        """representative of p up to a positive constant factor"""
        i = int(np.nonzero(p.lanes)[0][0]) if p.lanes.any() else 0
        key = (i, mulm(p.lanes, invm(np.full(NL, p.lanes[i], np.uint64))).tobytes())
        reps = self._scale.setdefault(key, [])
        for q in reps:
            r = int(p.lanes[i]) * pow(int(q.lanes[i]), P - 2, P) % P
            f = small_ratio(r)
            if f is not None and f > 0:
                return q
        reps.append(p)
        return p

    def b_eq0(self, p):
        if p.op == "const":
            return 1 if p.val == 0 else 0
        if p.op == "sel":
            return self.ite(p.val, self.b_eq0(p.args[0]), self.b_eq0(p.args[1]))
        q = self.neg(p)
        if tuple(q.lanes[:2]) < tuple(p.lanes[:2]):
            p = q
        return self.b_atom("eq", p)

    def sel(self, b, x, y):
        if b == 1 or x is y:
            return x
        if b == 0:
            return y
        xb = x.op in ("bool",) or (x.op == "const" and x.val in (0, 1))
        yb = y.op in ("bool",) or (y.op == "const" and y.val in (0, 1))
        if xb and yb and (x.op == "bool" or y.op == "bool"):
            return self.boolnode(self.ite(b, self.tobdd(x), self.tobdd(y)))
        x = self.assume(x, b)
        y = self.assume(y, self.b_not(b))
        if x is y:
            return x
        if self.canonical_extrema and x.isint and y.isint:
            b, x, y = self.extremum(b, x, y)
        sk = ("sel", b, x.nid, y.nid)
        n = self.ctab.get(sk)
        if n is None:
            c = self.bdd_lanes[b]
            lanes = addm(mulm(c, x.lanes), mulm(addm(np.uint64(1), negm(c)), y.lanes))
            n = self._intern("sel", (x, y), b, lanes, x.isint and y.isint, x.deps | y.deps | self.bdd_deps[b])
            self.ctab[sk] = n
        return n

    def extremum(self, b, x, y):
        """the least or the greatest of two integers has one form, whichever of the comparisons that give it was used"""
        v, lo, hi = self.bdd_nodes[b]
        if lo > 1 or hi > 1 or self.atoms[v][0] != "lti":
            return b, x, y
        p, d = self.atoms[v][1], self.sub(x, y)
        if p is d or p is self.sub(d, self.ONE):
            least = hi == 1
        elif p is self.neg(d) or p is self.sub(self.neg(d), self.ONE):
            least = hi != 1
        else:
            return b, x, y
        if tuple(y.lanes[:2]) < tuple(x.lanes[:2]):
            x, y = y, x
        b = self.b_lt0(self.sub(x, y), True)
        return (b, x, y) if least else (b, y, x)

    def assume(self, n, b):
        """cheap simplification of n when condition b is known to hold"""
        if b == 1:
            return n
        while n.op == "sel":
            if self.implies(b, n.val):
                n = n.args[0]
            elif self.b_and(b, n.val) == 0:
                n = n.args[1]
            else:
                break
        if n.op == "bool":
            if self.implies(b, n.val):
                return self.ONE
            if self.b_and(b, n.val) == 0:
                return self.ZERO
        return n

    # -- substitution
    def subst(self, n, m):
        """m: dict Node -> Node (atoms or any subexpression)"""
        if not m:
            return n
        tag = tuple(sorted((a.nid, b.nid) for a, b in m.items()))
        cache = self._subst_cache.setdefault(tag, {})
        return self._subst(n, m, cache)

    def subst_bdd(self, b, m):
        tag = tuple(sorted((a.nid, x.nid) for a, x in m.items()))
        cache = self._subst_cache.setdefault(tag, {})
        return self._subst_bdd(b, m, cache)

    def _subst(self, n, m, cache):
        r = cache.get(n.nid)
        if r is not None:
            return r
        if n in m:
            r = m[n]
        elif n.op in ("const", "sym"):
            r = n
        elif n.op == "bool":
            r = self.boolnode(self._subst_bdd(n.val, m, cache))
        elif n.op == "sel":
            r = self.sel(self._subst_bdd(n.val, m, cache), self._subst(n.args[0], m, cache), self._subst(n.args[1], m, cache))
        else:
            na = tuple(self._subst(a, m, cache) for a in n.args)
            r = n if na == n.args else self.rebuild(n, na)
        cache[n.nid] = r
        return r

    def rebuild(self, n, na):
        if n.op == "add":
            return self.add(*na)
        if n.op == "mul":
            return self.mul(*na)
        if n.op == "recip":
            return self.recip(*na)
        if n.op == "sqrt":
            return self.sqrt(*na)
        if n.op == "fn":
            if n.val == "floor":
                return self.floor(*na)
            if n.val == "ceil":
                return self.ceil(*na)
            r = self.fn(n.val, na, n.isint)
            return r
        raise AnalysisError("rebuild " + n.op)

    def _subst_bdd(self, b, m, cache):
        if b < 2:
            return b
        ck = ("b", b)
        r = cache.get(ck)
        if r is not None:
            return r
        var, lo, hi = self.bdd_nodes[b]
        kind, node = self.atoms[var]
        nn = self._subst(node, m, cache)
        if nn is node:
            a = self.mk(var, 0, 1)
        else:
            a = self.atom_bdd(kind, nn)
        r = self.ite(a, self._subst_bdd(hi, m, cache), self._subst_bdd(lo, m, cache))
        cache[ck] = r
        return r

    def atom_bdd(self, kind, node):
        if kind == "lt":
            return self.b_lt0(node, False)
        if kind == "lti":
            return self.b_lt0(node, True)
        if kind == "eq":
            return self.b_eq0(node)
        return self.b_atom(kind, node)

    def map_atoms(self, n, f, cache=None):
        """rebuild n with every comparison atom (kind,node) replaced by bdd f(kind,node) (None keeps it)"""
        cache = {} if cache is None else cache

        def go(x):
            r = cache.get(x.nid)
            if r is not None:
                return r
            if x.op in ("const", "sym"):
                r = x
            elif x.op == "bool":
                r = self.boolnode(gb(x.val))
            elif x.op == "sel":
                r = self.sel(gb(x.val), go(x.args[0]), go(x.args[1]))
            else:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else self.rebuild(x, na)
            cache[x.nid] = r
            return r

        def gb(b):
            if b < 2:
                return b
            r = cache.get(("b", b))
            if r is not None:
                return r
            var, lo, hi = self.bdd_nodes[b]
            kind, node = self.atoms[var]
            a = f(kind, node)
            if a is None:
                nn = go(node)
                a = self.atom_bdd(kind, nn)
            r = self.ite(a, gb(hi), gb(lo))
            cache[("b", b)] = r
            return r
        return go(n), gb

    # -- traversal
    def walk(self, roots):
        """all nodes reachable (including through conditions)"""
        seen = set()
        bseen = set()
        out = []
        stack = list(roots)
        while stack:
            n = stack.pop()
            if n.nid in seen:
                continue
            seen.add(n.nid)
            out.append(n)
            stack.extend(n.args)
            if n.op in ("bool", "sel"):
                bs = [n.val]
                while bs:
                    b = bs.pop()
                    if b < 2 or b in bseen:
                        continue
                    bseen.add(b)
                    var, lo, hi = self.bdd_nodes[b]
                    stack.append(self.atoms[var][1])
                    bs += [lo, hi]
        return out

    def bdd_vars(self, b):
        seen, out, st = set(), set(), [b]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.bdd_nodes[x]
            out.add(v)
            st += [lo, hi]
        return out

    # -- derivative (tangent) of a node; seed(elem node) -> Node or None
    def tangent(self, n, seed, cache):
        r = cache.get(n.nid)
        if r is not None:
            return r
        s = seed(n)
        if s is not None:
            r = s
        elif n.op in ("const", "sym", "bool"):
            r = self.ZERO
        elif n.op == "add":
            r = self.add(self.tangent(n.args[0], seed, cache), self.tangent(n.args[1], seed, cache))
        elif n.op == "mul":
            a, b = n.args
            r = self.add(self.mul(self.tangent(a, seed, cache), b), self.mul(a, self.tangent(b, seed, cache)))
        elif n.op == "recip":
            r = self.neg(self.mul(self.tangent(n.args[0], seed, cache), self.mul(n, n)))
        elif n.op == "sqrt":
            r = self.mul(self.tangent(n.args[0], seed, cache), self.mul(self.const(Fraction(1, 2)), self.recip(n)))
        elif n.op == "sel":
            r = self.sel(n.val, self.tangent(n.args[0], seed, cache), self.tangent(n.args[1], seed, cache))
        elif n.op == "fn":
            if n.val.startswith("opaque"):
                for a in n.args:
                    if self.tangent(a, seed, cache) is not self.ZERO:
                        raise AnalysisError("derivative through an opaque value: " + show(n))
            r = self.ZERO
        else:
            raise AnalysisError("tangent " + n.op)
        cache[n.nid] = r
        return r

    # -- decision: are two nodes equal for all values of the atoms (conditions treated as 0/1)?
    def differs(self, a, b, given=1, rounds=3):
        """None when equal; otherwise a witness description (truth values of some conditions)."""
        if a is b:
            return None
        return self._eval_diff(a, b, given, rounds)

    def equal(self, a, b):
        """equality of two nodes; when the value numbers differ, decided by evaluation under consistent conditions"""
        if a is b:
            return True
        k = (a.nid, b.nid) if a.nid < b.nid else (b.nid, a.nid)
        r = self._equal.get(k)
        if r is None:
            r = self._equal[k] = self._quick_differs(a, b) is None and self.differs(a, b) is None
        return r

    def equal_b(self, a, b):
        return a == b or self.equal(self.boolnode(a), self.boolnode(b))

    def _quick_differs(self, a, b):
        """a few random points only"""
        ev = Evaluator(self, 64, {}, bias=0.6)
        va, vb = ev.run(self._topo([a, b]), [a, b])
        return 1 if ((va != vb) & ev.valid & ~ev.weak).any() else None

    def _sat_paths(self, b, rng, k):
        """k random satisfying partial assignments of bdd b: list of dict var->bit"""
        out = []
        if b == 0:
            return out
        for _ in range(k):
            d = {}
            x = b
            while x > 1:
                v, lo, hi = self.bdd_nodes[x]
                if lo == 0:
                    bit = 1
                elif hi == 0:
                    bit = 0
                else:
                    bit = int(rng.integers(2))
                d[v] = bit
                x = hi if bit else lo
            out.append(d)
        return out

    def _eval_diff(self, a, b, given, rounds):
        order = self._topo([a, b, self.boolnode(given)])
        conds = set()
        for n in order:
            if n.op in ("bool", "sel"):
                conds.add(n.val)
        conds = sorted(conds)
        rng = np.random.default_rng(12345)
        scen = []
        base = given
        for d in self._sat_paths(base, rng, 6):
            scen.append(d)
        for c in conds:
            for cc in (self.b_and(c, base), self.b_and(self.b_not(c), base)):
                for d in self._sat_paths(cc, rng, rounds):
                    scen.append(d)
        # pairs of conditions (each true) to reach nested gates
        for i in range(len(conds)):
            for j in rng.integers(0, len(conds), 3):
                cc = self.b_and(self.b_and(conds[i], conds[j]), base)
                for d in self._sat_paths(cc, rng, 1):
                    scen.append(d)
        scen += self._sensitised(a, b, given, rng)
        if not scen:
            return None
        W = 2
        self.decided["scenarios"] += len(scen)
        bad, ev = self._try(a, b, given, order, scen, W)
        strict = bad & ~ev.weak
        if not strict.any() and bad.any():
            # the sides differ only at points where a square root is not in the field (r * r == x may be
            # what is missing there): decide these scenarios at more points
            redo = sorted({int(k) // W for k in np.nonzero(bad)[0]})
            scen = [scen[k] for k in redo]
            for W in (32, 512, 4096):
                if not scen:
                    break
                rest = []
                for k in range(0, len(scen), max(1, 8192 // W)):
                    part = scen[k:k + max(1, 8192 // W)]
                    bad, ev = self._try(a, b, given, order, part, W)
                    strict = bad & ~ev.weak
                    if strict.any():
                        scen = part
                        break
                    sure = (ev.valid & ~ev.weak & ev.given).reshape(-1, W).any(axis=1)
                    open_ = (bad.reshape(-1, W).any(axis=1)) & ~sure
                    rest += [d for d, o in zip(part, open_) if o]
                if strict.any():
                    break
                scen = rest
            if not strict.any():
                if not scen:
                    return None
                self.decided["undecided"] += 1
                return {"lanes": 0, "of": 0, "undecided": True,
                        "when": [("" if bit else "not ") + self.show_atom(v) for v, bit in list(scen[0].items())[:12]]}
        if not strict.any():
            return None
        idx = int(np.nonzero(strict)[0][0])
        d = scen[idx // W]
        return {"lanes": int(strict.sum()), "of": int((ev.valid & ~ev.weak).sum()),
                "when": [("" if bit else "not ") + self.show_atom(v) for v, bit in list(d.items())[:12]]}

    def _try(self, a, b, given, order, scen, W):
        """lanes (W per scenario) in which a and b differ, and the evaluator"""
        L = len(scen) * W
        forced = {}
        for s, d in enumerate(scen):
            for v, bit in d.items():
                arr = forced.setdefault(v, np.full(L, -1, np.int8))
                arr[s * W:(s + 1) * W] = bit
        ev = Evaluator(self, L, forced, bias=0.6)
        va, vb, vg = ev.run(order, [a, b, self.boolnode(given)])
        ev.given = vg != 0
        bad = (va != vb) & ev.valid & ev.given
        if bad.any():
            # keep only lanes in which comparison atoms got consistent truth values
            ev.consistent()
            bad &= ev.valid
        return bad, ev

    def _sensitised(self, a, b, given, rng, most=400, tries=6):
        """truth assignments under which a node occurring in only one of a, b takes part in the value of its root"""
        na, nb = {n.nid for n in self.walk([a])}, {n.nid for n in self.walk([b])}
        only = na ^ nb
        out = []
        for root in (a, b):
            order = self._topo([root])
            parents = {}
            for n in order:
                for k, x in enumerate(n.args):
                    c = 1
                    if n.op == "sel":
                        c = n.val if k == 0 else self.b_not(n.val)
                    parents.setdefault(x.nid, []).append((n, c))
                if n.op in ("bool", "sel"):
                    for v in self.bdd_vars(n.val):
                        parents.setdefault(self.atoms[v][1].nid, []).append((n, 1))
            # the smallest differing nodes: every operand also occurs on the other side
            tgt = [n for n in order if n.nid in only and not any(x.nid in only for x in n.args)]
            tgt += [n for n in order if n.nid in only and n.op in ("sel", "bool") and n not in tgt]
            if len(tgt) > most:
                tgt = [tgt[i] for i in sorted(rng.choice(len(tgt), most, replace=False))]
            for t in tgt:
                pols = [1]
                if t.op in ("sel", "bool"):
                    pols = [t.val, self.b_not(t.val)]
                for pol in pols:
                    good = 0
                    for _ in range(tries):
                        cc = self.b_and(given, pol)
                        x = t
                        while x is not root and cc != 0:
                            ps = parents.get(x.nid)
                            if not ps:
                                break
                            ps = [(y, self.b_and(cc, c)) for y, c in ps]
                            ps = [q for q in ps if q[1] != 0]
                            if not ps:
                                cc = 0
                                break
                            x, cc = ps[int(rng.integers(len(ps)))]
                        if cc == 0:
                            continue
                        out += self._sat_paths(cc, rng, 1)
                        good += 1
                        if good >= 3:
                            break
        return out

    def _topo(self, roots):
        """nodes in dependency order, including the nodes inside conditions"""
        order = []
        state = {}
        stack = [("n", r, 0) for r in roots]
        while stack:
            kind, x, ph = stack.pop()
            k = (kind, x.nid if kind == "n" else x)
            if ph == 1:
                if kind == "n":
                    order.append(x)
                continue
            if k in state:
                continue
            state[k] = 1
            stack.append((kind, x, 1))
            if kind == "n":
                for a in x.args:
                    stack.append(("n", a, 0))
                if x.op in ("bool", "sel"):
                    stack.append(("b", x.val, 0))
            else:
                if x > 1:
                    var, lo, hi = self.bdd_nodes[x]
                    stack.append(("n", self.atoms[var][1], 0))
                    stack.append(("b", lo, 0))
                    stack.append(("b", hi, 0))
        return order

    def show_atom(self, v):
        kind, node = self.atoms[v]
        s = show(node, 4)
        return {"lt": "%s < 0", "lti": "%s < 0", "eq": "%s == 0"}.get(kind, "%s") % s


class Evaluator:
    """evaluate the expression graph at pseudo-random points, conditions as 0/1 consistent with compared values"""

    def __init__(self, g, L, forced, bias=0.5, seed=1):
        self.g, self.L, self.forced = g, L, forced
        self.ids = splitmix(np.arange(1, L + 1, dtype=np.uint64) * np.uint64(104729) + np.uint64(seed * 1000003))
        self.valid = np.ones(L, bool)
        self.weak = np.zeros(L, bool)  # a square root of this lane is not in the field: see rootm
        self.vals = {}
        self.bvals = {0: np.zeros(L, np.uint64), 1: np.ones(L, np.uint64)}
        self.avals = {}
        self.bias = bias
        self.fkeys = []  # (kind, compared value, forced truth or -1)
        self.allkeys = []
        self.fmat, self.fkeys_of = {}, {}

    def run(self, order, roots):
        # forced atoms first need the value of their node; nodes are in topological order so evaluate lazily
        for n in order:
            self.node(n)
        return [self.vals[r.nid] for r in roots]

    def atomval(self, v):
        r = self.avals.get(v)
        if r is not None:
            return r
        kind, node = self.g.atoms[v]
        x = self.node(node)
        # the truth value is a function of the compared value: p < 0 iff not -1 - p < 0 on integers, p == 0 iff -p == 0
        kk = "lt" if kind == "lti" else kind
        key, flip = x, np.zeros(self.L, np.uint64)
        if kk == "lt":
            y = addm(PU - np.uint64(1), negm(x))
            m = y < x
            key = np.where(m, y, x)
            flip = m.astype(np.uint64)
        elif kk == "eq":
            key = np.minimum(x, negm(x) % PU)
        h = hash_lanes("bit:" + kk, [key], self.ids)
        bits = (h >> np.uint64(11)).astype(np.float64) / float(1 << 53) < self.bias
        bits = bits.astype(np.uint64) ^ flip
        if kk == "lt":
            # small integers are compared exactly
            small = np.uint64(1 << 17)
            bits[x < small] = 0
            bits[x >= PU - small] = 1
            fixed = (x < small) | (x >= PU - small)
        else:
            fixed = np.zeros(self.L, bool)
        # atoms with equal compared values follow the ones already forced
        done = fixed.copy()
        M, n = self.fmat.get(kk, (None, 0))
        if n:
            for lo in range(0, n, 256):
                hit = M[lo:min(n, lo + 256)] == key
                m = hit.any(axis=0) & ~done
                if m.any():
                    for q in np.nonzero(m)[0]:
                        for r in np.nonzero(hit[:, q])[0]:
                            f2 = self.fkeys_of[kk][lo + r][q]
                            if f2 >= 0:
                                bits[q] = np.uint64(int(f2)) ^ flip[q]
                                done[q] = True
                                break
        if kk == "eq":
            bits[x == 0] = 1
            done |= x == 0
        f = self.forced.get(v)
        if f is not None:
            m = f >= 0
            bits[m & ~done] = f[m & ~done].astype(np.uint64)
            # a forced truth value that contradicts an equal atom makes the lane meaningless
            self.valid &= ~(m & (bits != np.where(m, f, 0).astype(np.uint64)))
            M, n = self.fmat.get(kk, (None, 0))
            if M is None or n == len(M):
                N = np.empty((max(16, 2 * n), self.L), np.uint64)
                if n:
                    N[:n] = M[:n]
                M = N
            M[n] = key
            self.fmat[kk] = (M, n + 1)
            self.fkeys_of.setdefault(kk, []).append(np.where(m, f.astype(np.int64) ^ flip.astype(np.int64), -1))
            self.fkeys.append((kk, key, np.where(m, f.astype(np.int64) ^ flip.astype(np.int64), -1)))
        self.avals[v] = bits
        self.allkeys.append((kk, key, bits ^ flip))
        return bits

    def consistent(self):
        """invalidate the lanes in which an atom evaluated before an equal forced one got the other truth value
        (equal compared values get equal truth values unless one of them is forced)"""
        for kind in {k for k, _, _ in self.fkeys}:
            rows = [x * np.uint64(2) + b for k, x, b in self.allkeys if k == kind]
            for lo in range(0, self.L, 4096):
                m = np.stack([r[lo:lo + 4096] for r in rows])
                m.sort(axis=0)
                clash = ((m[1:] ^ m[:-1]) == 1) & ((m[:-1] & np.uint64(1)) == 0)
                self.valid[lo:lo + 4096] &= ~clash.any(axis=0)

    def bdd(self, b):
        r = self.bvals.get(b)
        if r is None:
            st = [b]
            while st:
                x = st[-1]
                if x in self.bvals:
                    st.pop()
                    continue
                v, lo, hi = self.g.bdd_nodes[x]
                need = [y for y in (lo, hi) if y not in self.bvals]
                if need:
                    st += need
                    continue
                a = self.atomval(v)
                self.bvals[x] = np.where(a == 1, self.bvals[hi], self.bvals[lo])
                st.pop()
            r = self.bvals[b]
        return r

    def node(self, n):
        r = self.vals.get(n.nid)
        if r is not None:
            return r
        op = n.op
        if op == "const":
            v = (n.val.numerator % P) * pow(n.val.denominator % P, P - 2, P) % P
            r = np.full(self.L, v, np.uint64)
        elif op == "sym":
            r = hash_lanes("sym:" + n.val, [], self.ids) % PU
        elif op == "add":
            r = addm(self.node(n.args[0]), self.node(n.args[1]))
        elif op == "mul":
            r = mulm(self.node(n.args[0]), self.node(n.args[1]))
        elif op == "recip":
            x = self.node(n.args[0])
            r = invm(x)
        elif op == "sqrt":
            x = self.node(n.args[0])
            r, out = rootm(x)
            self.weak |= out
        elif op == "fn":
            r = hash_lanes("fn:" + n.val, [self.node(a) for a in n.args], self.ids) % PU
        elif op == "bool":
            r = self.bdd(n.val)
        elif op == "sel":
            c = self.bdd(n.val)
            r = np.where(c == 1, self.node(n.args[0]), self.node(n.args[1]))
        else:
            raise AnalysisError("eval " + op)
        self.vals[n.nid] = r
        return r


def show(n, depth=6):
    if n.op == "const":
        return str(n.val)
    if n.op == "sym":
        return n.val
    if depth <= 0:
        return "…"
    d = depth - 1
    if n.op == "add":
        return "(" + show(n.args[0], d) + " + " + show(n.args[1], d) + ")"
    if n.op == "mul":
        return show(n.args[0], d) + "*" + show(n.args[1], d)
    if n.op == "recip":
        return "1/" + show(n.args[0], d)
    if n.op == "fn":
        return n.val + "(" + ", ".join(show(a, d) for a in n.args) + ")"
    if n.op == "sel":
        return "sel(b%d, %s, %s)" % (n.val, show(n.args[0], d), show(n.args[1], d))
    if n.op == "bool":
        return "b%d" % n.val
    return n.op + "(" + ", ".join(show(a, d) for a in n.args) + ")"
