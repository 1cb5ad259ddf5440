"""Abstract arrays for the Python analyses: index-notation value numbering.

An array is a buffer (identity, shape, content) seen through a view.  Content is a function from index terms to a
value number; dimensions may be symbolic, so one abstract array stands for arrays of every size.  A reduction over a
symbolic dimension is interpreted as a generic two-point quadrature: a linear functional, identical at every
reduction over that dimension, that maps the constant 1 to the size; equalities that hold for sums of every length
hold for it, and distinct contractions get distinct value numbers.
"""
import itertools
from fractions import Fraction
from gvn import Graph, Node, AnalysisError, show


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Opq:
    """opaque Python value named by a term"""
    __slots__ = ("node", "label", "args", "kind")

    def __init__(self, node, label, args=(), kind=None):
        self.node, self.label, self.args, self.kind = node, label, args, kind

    def __repr__(self):
        return "<%s>" % self.label


class Buf:
    n = 0
    inverse_of = None      # number of distinct values, for the inverse indices of a table of distinct values

    def __init__(self, label, shape, content, owner="local", site=None):
        Buf.n += 1
        self.id = Buf.n
        self.label, self.shape, self.content, self.owner, self.site = label, shape, content, owner, site
        self.writes = []
        self.alias = None      # buffer whose memory is (possibly) shared through a reshape
        self.sources = frozenset()

    def root(self):
        b = self
        while b.alias is not None:
            b = b.alias
        return b

    def __repr__(self):
        return "<buf %s#%d>" % (self.label, self.id)


NEW = ("new",)


class ReBuf(Buf):
    """memory of another array seen with other dimensions; reads and writes go to that array"""

    def __init__(self, num, label, dims, parent, fwd, bwd):
        self.num, self.parent, self.fwd, self.bwd, self._last = num, parent, fwd, bwd, (None, None)
        Buf.__init__(self, label, dims, None)
        self.alias = parent.buf

    @property
    def content(self):
        c = self.parent.buf.content
        if self._last[0] is not c:
            self._last = (c, self.num.memo(lambda idx: c(self.num.bufidx(self.parent, self.fwd(idx)))))
        return self._last[1]

    @content.setter
    def content(self, f):
        if f is not None:
            self.parent.buf.content = self.num.memo(lambda idx: f(self.bwd(idx)))


class Arr:
    """view of a buffer.  dims: list of dimensions (tuples of atoms).  amap: for each buffer axis
    ('fix', index tuple) or ('ax', view axis, start, step)"""
    __slots__ = ("buf", "dims", "amap", "dtype", "sparse", "matrix", "wrapper")

    def __init__(self, buf, dims, amap=None, dtype="f8", sparse=False, matrix=False):
        self.buf, self.dims, self.dtype, self.sparse, self.matrix = buf, list(dims), dtype, sparse, matrix
        self.amap = amap if amap is not None else [("ax", i, 0, 1) for i in range(len(dims))]
        self.wrapper = "numpy"

    @property
    def ndim(self):
        return len(self.dims)

    def __repr__(self):
        return "<arr %s>" % self.buf.label


class Num:
    """operations of the numeric domain over one Graph"""

    def __init__(self, g):
        self.g = g
        self.fresh = itertools.count(1)
        self.opaque_sparse = True
        self.splits = {}
        self.nonneg = []       # symbols known not to be negative

    # ---- scalars
    def isscalar(self, v):
        return isinstance(v, (int, float, Fraction, Node, SymBool)) and not isinstance(v, complex)

    def node(self, v):
        if isinstance(v, Node):
            return v
        if isinstance(v, bool):
            return self.g.const(1 if v else 0)
        if isinstance(v, (int, Fraction)):
            return self.g.const(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return self.g.sym("const:%r" % v)
            return self.g.const(Fraction(repr(v)))
        if isinstance(v, SymBool):
            return self.g.boolnode(v.b)
        if isinstance(v, Opq):
            return v.node
        if isinstance(v, Arr) and v.ndim == 0:
            return self.at(v, ())
        raise AnalysisError("not a number: %r" % (v,))

    def py(self, n):
        """node back to a Python number when constant"""
        if isinstance(n, Node) and n.op == "const":
            return int(n.val) if n.val.denominator == 1 else n.val
        if isinstance(n, Node) and n.op == "bool":
            return SymBool(n.val)
        return n

    def bdd(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, SymBool):
            return v.b
        if isinstance(v, Node):
            return self.g.tobdd(v)
        if isinstance(v, (int, float, Fraction)):
            return int(v != 0)
        raise AnalysisError("not a condition: %r" % (v,))

    def lt(self, a, b):
        inf = [x.val if x.op == "sym" and str(x.val).startswith("const:") else None for x in (a, b)]
        if inf != [None, None] and a is not b:       # ordinary numbers are finite
            return 1 if inf[1] == "const:inf" or inf[0] == "const:-inf" else 0
        d = self.g.sub(a, b)
        for s in self.nonneg:
            x, y = self.g.sub(d, s), self.g.add(d, s)
            if x.op == "const" and x.val >= 0:        # a - b = s + c
                return 0
            if y.op == "const" and y.val < 0:         # a - b = c - s
                return 1
        return self.g.b_lt0(d, d.isint)

    def eq(self, a, b):
        if a is b:
            return 1
        if a.op == "bool" or b.op == "bool":
            g = self.g
            if a.op == "bool" and b.op == "bool":
                return g.ite(a.val, b.val, g.b_not(b.val))
            if b.op != "bool":
                a, b = b, a
            return g.ite(b.val, self.eq(a, g.ONE), self.eq(a, g.ZERO))
        return self.g.b_eq0(self.g.sub(a, b))

    def delta(self, a, b):
        """1 when two indices are equal else 0, as a node"""
        g = self.g
        a, b = self.node(a), self.node(b)
        if a is b:
            return g.ONE
        if a.op == "const" and b.op == "const":
            return g.ZERO
        d = g.sub(a, b)
        if d.op == "const":
            return g.ONE if d.val == 0 else g.ZERO
        if a.nid > b.nid:
            a, b = b, a
        return g.fn("delta", (a, b), isint=True)

    def select(self, c, a, b):
        return self.g.sel(c, a, b)

    # ties do not matter for the value; constants go first so that the derivative at a clamp is the constant's
    def order(self, a, b):
        if b.op == "const" and a.op != "const":
            return b, a
        if a.op != "const" and a.nid > b.nid:
            return b, a
        return a, b

    def below(self, a, b, depth=3):
        """[a < b], a joined value among the two decided first (as in nested clamps)"""
        for x, y, f in ((a, b, lambda u: self.below(u, b, depth - 1)), (b, a, lambda u: self.below(a, u, depth - 1))):
            if x.op == "sel" and depth and not x.isint:
                return self.g.ite(x.val, f(x.args[0]), f(x.args[1]))
        return self.lt(a, b)

    def amax(self, a, b):
        a, b = self.order(a, b)
        return self.g.sel(self.below(a, b), b, a)

    def amin(self, a, b):
        a, b = self.order(a, b)
        return self.g.sel(self.below(b, a), b, a)

    def abs(self, a):
        return self.g.sel(self.lt(a, self.g.ZERO), self.g.neg(a), a)

    # ---- dims
    def dim(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Node):
            v = self.py(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        return (v,)

    def dimval(self, d):
        r = 1
        n = self.g.ONE
        for a in d:
            n = self.g.mul(n, self.node(a))
        return self.py(n)

    def dimnode(self, d):
        return self.node(self.dimval(d))

    def same_dim(self, a, b):
        return self.dimnode(a) is self.dimnode(b)

    def is1(self, d):
        return self.dimval(d) == 1 if isinstance(self.dimval(d), int) else False

    def sample(self, atom, m):
        return self.g.fn("smp:%d" % m, (self.node(atom),), isint=True)

    # ---- arrays
    def array(self, label, dims, content, dtype="f8", owner="local", site=None, **kw):
        dims = [self.dim(d) for d in dims]
        b = Buf(label, dims, content, owner, site)
        return Arr(b, dims, dtype=dtype, **kw)

    def memo(self, f):
        cache = {}

        def h(idx):
            k = tuple(tuple(self.node(x).nid for x in i) for i in idx)
            r = cache.get(k)
            if r is None:
                r = cache[k] = f(idx)
            return r
        return h

    def param(self, label, dims, dtype="f8", owner="caller"):
        g = self.g
        isint = dtype[0] in "iu"

        def content(idx):
            args = [self.node(x) for i in idx for x in i]
            if dtype == "b1":
                return g.boolnode(g.b_atom("elem:" + label, g.fn("ix", args, isint=True) if args else g.ZERO))
            return g.fn("elem:" + label, args, isint=isint)
        return self.array(label, dims, self.memo(content), dtype, owner)

    def full(self, label, dims, v, dtype="f8"):
        v = self.node(v)
        return self.array(label, dims, lambda idx: v, dtype)

    def bufidx(self, a, idx):
        out = []
        for m in a.amap:
            if m[0] == "fix":
                out.append(m[1])
            else:
                i = idx[m[1]]
                if m[2] != 0 or m[3] != 1:
                    if len(i) != 1:
                        raise AnalysisError("slice of a composite dimension")
                    i = (self.py(self.g.add(self.node(m[2]), self.g.mul(self.node(m[3]), self.node(i[0])))),)
                out.append(i)
        return tuple(out)

    def at(self, a, idx):
        """value at an index (tuple of index tuples, one per dimension)"""
        idx = tuple(i if isinstance(i, tuple) else (i,) for i in idx)
        return a.buf.content(self.bufidx(a, idx))

    def reader(self, a):
        """snapshot of the current content seen through the view"""
        c = a.buf.content
        am = list(a.amap)
        proxy = Arr(a.buf, a.dims, am)

        def f(idx):
            return c(self.bufidx(proxy, idx))
        return f

    def points(self, d):
        """the (index tuple, weight) pairs standing for a whole dimension"""
        g = self.g
        per = []
        for a in d:
            if isinstance(a, int):
                per.append([(k, g.ONE) for k in range(a)])
            else:
                w = g.fn("wgt", (a,), isint=True)
                per.append([(self.sample(a, 0), w), (self.sample(a, 1), g.sub(a, w))])
        for combo in itertools.product(*per):
            w = g.ONE
            for _, x in combo:
                w = g.mul(w, x)
            yield tuple(i for i, _ in combo), w

    def total(self, dims, f):
        """sum of f over all index tuples of the dims (list); resolves index deltas"""
        g = self.g
        sym = [(k, j, a) for k, d in enumerate(dims) for j, a in enumerate(d) if not isinstance(a, int)]
        conc = [[range(a) if isinstance(a, int) else (None,) for a in d] for d in dims]
        r = g.ZERO
        n = 1
        for d in conc:
            for c in d:
                n *= len(c)
        if n > 4096:
            raise AnalysisError("sum over too many concrete elements")
        vs = {(k, j): g.sym("bound:%d" % next(self.fresh), True) for k, j, a in sym}
        for combo in itertools.product(*[itertools.product(*d) for d in conc]):
            idx = tuple(tuple(vs[(k, j)] if x is None else x for j, x in enumerate(i)) for k, i in enumerate(combo))
            r = g.add(r, self.quad(f(idx), [(vs[(k, j)], a) for k, j, a in sym]))
        return r

    def quad(self, e, bound):
        g = self.g
        if not bound:
            return e
        (v, a), rest = bound[0], bound[1:]
        # deltas that fix this bound variable (one used in a condition stays an ordinary term of the summand)
        for d in [x for x in g.walk([e]) if x.op == "fn" and x.val == "delta" and (x.args[0] is v or x.args[1] is v)]:
            e0 = g.subst(e, {d: g.ZERO})
            e1 = g.subst(e, {d: g.ONE})
            c = g.sub(e1, e0)
            t = d.args[1] if d.args[0] is v else d.args[0]
            if d in set(g.walk([c])) or v in set(g.walk([t])):
                continue
            lin = g.add(e0, g.mul(d, c))
            if lin is not e and not g.equal(lin, e):
                continue
            hit = self.quad(g.subst(c, {v: t}), rest)
            return g.add(hit, self.quad(e0, bound))
        w = g.fn("wgt", (a,), isint=True)
        s0, s1 = self.sample(a, 0), self.sample(a, 1)
        return g.add(g.mul(w, self.quad(g.subst(e, {v: s0}), rest)), g.mul(g.sub(self.node(a), w), self.quad(g.subst(e, {v: s1}), rest)))

    # ---- elementwise
    def arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (list, tuple)):
            return self.fromlist(v)
        n = self.node(v)
        dt = "b1" if isinstance(v, (bool, SymBool)) or n.op == "bool" else "i8" if n.isint else "f8"
        return self.array("scalar", [], lambda idx: n, dt)

    def fromlist(self, v, label="array"):
        items = [self.arr(x) for x in v]
        if not items:
            return self.full(label, [0], 0)
        d0 = items[0].dims
        for x in items:
            if len(x.dims) != len(d0):
                raise AnalysisError("ragged list")
        rs = [self.reader(x) for x in items]
        dt = self.result_dtype(items)

        def content(idx):
            return self.pick(idx[0][0], [lambda k=k: rs[k](idx[1:]) for k in range(len(rs))])
        return self.array(label, [len(items)] + list(d0), self.memo(content), dt)

    def pick(self, i, fs):
        """value of the i-th alternative"""
        i = self.py(i) if isinstance(i, Node) else i
        if isinstance(i, int):
            if i < 0:
                i += len(fs)
            if not 0 <= i < len(fs):
                raise AnalysisError("index %d out of range %d" % (i, len(fs)))
            return fs[i]()
        r = fs[-1]()
        for k in range(len(fs) - 2, -1, -1):
            r = self.g.sel(self.g.b_eq0(self.g.sub(i, self.g.const(k))), fs[k](), r)
        return r

    def result_dtype(self, arrs):
        ds = [x.dtype for x in arrs]
        if all(d == "b1" for d in ds):
            return "b1"
        if any(d == "f8" for d in ds):
            return "f8"
        for d in ("i8", "u8", "u4", "f4", "u1"):
            if d in ds:
                return d
        return ds[0]

    def bdims(self, a, b):
        if self.is1(a):
            return b
        if self.is1(b):
            return a
        if not self.same_dim(a, b):
            raise ShapeMismatch("shapes do not broadcast: %s and %s" % (show(self.dimnode(a)), show(self.dimnode(b))))
        return a if len(a) >= len(b) else b

    def ew(self, f, *vals, dtype=None, label="tmp"):
        """elementwise f(node...) with broadcasting"""
        xs = [self.arr(v) for v in vals]
        nd = max(x.ndim for x in xs)
        dims = [(1,)] * nd
        for x in xs:
            for k, d in enumerate(x.dims):
                j = nd - x.ndim + k
                dims[j] = self.bdims(dims[j], d)
        rs = [(self.reader(x), x) for x in xs]

        def content(idx):
            args = []
            for r, x in rs:
                ii = []
                for k, d in enumerate(x.dims):
                    i = idx[nd - x.ndim + k]
                    if self.is1(d):
                        i = (0,) * len(d)
                    elif len(d) != len(i):
                        i = self.reindex(i, dims[nd - x.ndim + k], d)
                    ii.append(i)
                args.append(r(tuple(ii)))
            return f(*args)
        out = self.array(label, dims, self.memo(content), dtype or self.result_dtype(xs))
        out.wrapper = next((x.wrapper for x in xs if x.wrapper != "numpy"), "numpy")
        if out.ndim == 0 and not any(isinstance(v, Arr) for v in vals):
            return self.scalar(out)
        return out

    def scalar(self, a):
        v = self.at(a, ())
        if a.dtype == "b1" and not isinstance(v, SymBool):
            return self.boolpy(self.g.tobdd(v))
        return self.py(v)

    def boolpy(self, b):
        return bool(b) if b in (0, 1) else SymBool(b)

    def flat(self, *parts):
        """flat (C order) index built from (index, extent) pairs, in range by construction; remembered so that it can be split again"""
        g = self.g
        r = g.ZERO
        for i, n in parts:
            r = g.add(g.mul(r, self.node(n)), self.node(i))
        # nested groupings: any grouping of consecutive factors is a valid factorisation too
        k = len(parts)
        for cuts in range(1, 1 << (k - 1)):
            groups, cur = [], [parts[0]]
            for j in range(1, k):
                if cuts >> (j - 1) & 1:
                    groups.append(cur)
                    cur = []
                cur.append(parts[j])
            groups.append(cur)
            idx, ext = [], []
            for gr in groups:
                a, n = g.ZERO, g.ONE
                for i, m in gr:
                    a = g.add(g.mul(a, self.node(m)), self.node(i))
                    n = g.mul(n, self.node(m))
                idx.append(self.py(a))
                ext.append(n)
            self.splits[(r.nid,) + tuple(n.nid for n in ext[1:])] = tuple(idx)
        return r

    def reindex(self, i, d_from, d_to):
        """index of one composite dimension re-expressed in another factorisation of the same size"""
        g = self.g
        if len(d_from) == len(d_to) == 1:
            return i
        if len(d_to) == 1:
            r = g.ZERO
            for x, a in zip(i, d_from):
                r = g.add(g.mul(r, self.node(a)), self.node(x))
            return (self.py(r),)
        # split a flat index, possible when it is a constant or was built from the same factors
        if len(d_from) == 1:
            flat = self.node(i[0])
            known = self.splits.get((flat.nid,) + tuple(self.node(a).nid for a in d_to[1:]))
            if known is not None:
                return known
            if flat.op == "const" and all(isinstance(a, int) for a in d_to[1:]):
                v = int(flat.val)
                out = []
                for a in reversed(d_to[1:]):
                    out.append(v % a)
                    v //= a
                return (v,) + tuple(reversed(out))
            out = []
            for k in range(len(d_to)):
                out.append(g.fn("unravel:%d" % k, (flat,) + tuple(self.node(a) for a in d_to[1:]), isint=True))
            return tuple(out)
        raise AnalysisError("reshape between different factorisations")

    # ---- shape manipulation
    def view(self, a, dims, amap):
        v = Arr(a.buf, dims, amap, a.dtype, a.sparse, a.matrix)
        v.wrapper = a.wrapper
        return v

    def transpose(self, a, perm=None):
        n = a.ndim
        perm = list(perm) if perm is not None else list(range(n))[::-1]
        perm = [p % n for p in perm]
        inv = [perm.index(k) for k in range(n)]
        amap = [m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in a.amap]
        return self.view(a, [a.dims[p] for p in perm], amap)

    def expand(self, a, axis):
        n = a.ndim + 1
        axis %= n
        amap = [m if m[0] == "fix" else ("ax", m[1] + (m[1] >= axis), m[2], m[3]) for m in a.amap]
        d = list(a.dims)
        d.insert(axis, (1,))
        return self.view(a, d, amap)

    def squeeze(self, a, axis=None):
        if axis is None:
            axes = [k for k, d in enumerate(a.dims) if self.is1(d)]
        else:
            axes = [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
            for x in axes:
                if not self.is1(a.dims[x]):
                    raise ShapeMismatch("squeeze of a dimension that is not 1")
        for ax in sorted(axes, reverse=True):
            a = self.fix(a, ax, (0,) * len(a.dims[ax]))
        return a

    def fix(self, a, axis, i):
        amap = []
        for m in a.amap:
            if m[0] == "fix" or m[1] < axis:
                amap.append(m)
            elif m[1] == axis:
                if m[2] == 0 and m[3] == 1:
                    amap.append(("fix", i))
                else:
                    amap.append(("fix", (self.py(self.g.add(self.node(m[2]), self.g.mul(self.node(m[3]), self.node(i[0])))),)))
            else:
                amap.append(("ax", m[1] - 1, m[2], m[3]))
        d = list(a.dims)
        del d[axis]
        return self.view(a, d, amap)

    def slice(self, a, axis, s):
        start, stop, step = s
        d = a.dims[axis]
        if start is None and stop is None and step in (None, 1):
            return a
        if len(d) != 1:
            raise AnalysisError("slice of a composite dimension")
        N = d[0]
        g = self.g
        step = 1 if step is None else step
        if not isinstance(step, int) or step == 0:
            raise AnalysisError("slice step")
        Nn = self.node(N)

        def pos(v, default):
            if v is None:
                return default
            v = self.py(self.node(v))
            if isinstance(v, int) and v < 0:
                return self.py(g.add(Nn, g.const(v)))
            return v
        if step > 0:
            lo, hi = pos(start, 0), pos(stop, N)
            if isinstance(N, int) and isinstance(lo, int) and isinstance(hi, int):
                lo, hi = min(max(lo, 0), N), min(max(hi, 0), N)
                size = max(0, -(-(hi - lo) // step))
            else:
                if step != 1:
                    raise AnalysisError("strided slice of a symbolic dimension")
                size = self.py(g.sub(self.node(hi), self.node(lo)))
        else:
            if start is not None or stop is not None or step != -1:
                raise AnalysisError("negative slice")
            lo, size = self.py(g.sub(Nn, g.ONE)), N
        amap = []
        for m in a.amap:
            if m[0] == "ax" and m[1] == axis:
                st = self.py(g.add(self.node(m[2]), g.mul(self.node(m[3]), self.node(lo))))
                amap.append(("ax", axis, st, m[3] * step))
            else:
                amap.append(m)
        dims = list(a.dims)
        dims[axis] = self.dim(size)
        return self.view(a, dims, amap)

    def copy(self, a, label=None, dtype=None, conv=None):
        r = self.reader(a)
        out = self.array(label or a.buf.label + ".copy", a.dims, self.memo((lambda idx: conv(r(idx))) if conv else r), dtype or a.dtype, sparse=a.sparse, matrix=a.matrix)
        out.wrapper = a.wrapper
        return out

    def reshape(self, a, shape):
        """shape: list of dims or -1"""
        flat = [x for d in a.dims for x in d if not (isinstance(x, int) and x == 1)]
        shape = [s if s is None else self.dim(s) for s in shape]
        total = self.g.ONE
        for x in flat:
            total = self.g.mul(total, self.node(x))
        if (-1,) in shape or any(len(s) == 1 and isinstance(s[0], int) and s[0] == -1 for s in shape):
            k = [i for i, s in enumerate(shape) if s == (-1,)][0]
            known = self.g.ONE
            for i, s in enumerate(shape):
                if i != k:
                    known = self.g.mul(known, self.dimnode(s))
        else:
            k, known = None, None
        # group the source factors into the target dimensions, left to right (and right to left for -1)
        groups = [None] * len(shape)

        def take(order, it, stop):
            for i in order:
                if i == stop:
                    return True
                want = self.dimnode(shape[i])
                acc, got = self.g.ONE, []
                while acc is not want:
                    if not it:
                        return False
                    x = it.pop(0 if order.step > 0 else -1)
                    got = got + [x] if order.step > 0 else [x] + got
                    acc = self.g.mul(acc, self.node(x))
                groups[i] = tuple(got) or (1,)
            return True
        rest = list(flat)
        ok = take(range(0, len(shape), 1), rest, k)
        if ok and k is not None:
            ok = take(range(len(shape) - 1, k, -1), rest, k)
            groups[k] = tuple(rest) or (1,)
            rest = []
        src = list(a.dims)
        r = self.reader(a)
        if not ok or rest:
            # different factorisation: go through flat indices
            dims = []
            for i, s in enumerate(shape):
                if i == k:
                    v = self.g.mul(total, self.g.recip(known))
                    s = self.dim(self.py(v))
                dims.append(s)
            tn = self.g.ONE
            for s in dims:
                tn = self.g.mul(tn, self.dimnode(s))
            if tn is not total:
                raise ShapeMismatch("reshape changes the number of elements")
            tf = tuple(x for d in dims for x in d)
            sf = tuple(x for d in src for x in d)

            def regroup(idx, ff, ft, to):
                i = self.reindex(tuple(x for t in idx for x in t), ff, (total,)) if len(ff) != 1 else tuple(x for t in idx for x in t)
                j = self.reindex(i, (total,), ft) if len(ft) != 1 else i
                out, p = [], 0
                for d in to:
                    out.append(tuple(j[p:p + len(d)]))
                    p += len(d)
                return tuple(out)
            fwd = lambda idx: regroup(idx, tf, sf, src)
            bwd = lambda idx: regroup(idx, sf, tf, dims)
        else:
            dims = groups

            def move(idx, df, dt):
                vals = [x for t, d in zip(idx, df) for x, a_ in zip(t, d) if not (isinstance(a_, int) and a_ == 1)]
                out, p = [], 0
                for d in dt:
                    t = []
                    for x in d:
                        if isinstance(x, int) and x == 1:
                            t.append(0)
                        else:
                            t.append(vals[p])
                            p += 1
                    out.append(tuple(t))
                return tuple(out)
            fwd = lambda idx: move(idx, dims, src)
            bwd = lambda idx: move(idx, src, dims)
        dims = [self.dim(d) for d in dims]
        plain = all(m[0] == "ax" and m[1] == k and m[2] == 0 and m[3] == 1 for k, m in enumerate(a.amap)) and len(a.amap) == len(a.dims)
        if plain and not a.sparse and [tuple(d) for d in a.dims] == [tuple(d) for d in a.buf.shape]:
            out = Arr(ReBuf(self, a.buf.label + ".reshape", dims, Arr(a.buf, list(a.dims), list(a.amap)), fwd, bwd), dims, dtype=a.dtype)
        else:      # a copy, or a view of part of an array: treated as a copy, but writes to it count as writes to the array
            out = self.array(a.buf.label + ".reshape", dims, self.memo(lambda idx: r(fwd(idx))), a.dtype)
            out.buf.alias = a.buf
        out.wrapper = a.wrapper
        return out

    def concat(self, xs, axis=0, label="concat"):
        xs = [self.arr(x) for x in xs]
        nd = xs[0].ndim
        axis %= nd
        if any(x.ndim != nd for x in xs):
            raise ShapeMismatch("concatenation of arrays of different ranks")
        for x in xs[1:]:
            for k in range(nd):
                if k != axis and not self.same_dim(x.dims[k], xs[0].dims[k]):
                    raise ShapeMismatch("concatenation of arrays of different shapes")
        dims = list(xs[0].dims)
        rs = [self.reader(x) for x in xs]
        dt = self.result_dtype(xs)
        sizes = [x.dims[axis] for x in xs]
        if len(xs) == 1:
            return self.copy(xs[0], label)
        if all(isinstance(self.dimval(s), int) for s in sizes):
            n = [self.dimval(s) for s in sizes]
            dims[axis] = (sum(n),)

            def content(idx):
                i = idx[axis][0]
                i = self.py(i) if isinstance(i, Node) else i
                fs = []
                for r, m, d in zip(rs, n, sizes):
                    for q in range(m):
                        fs.append(lambda r=r, q=q, d=d: r(idx[:axis] + (self.reindex((q,), (self.dimval(d),), d),) + idx[axis + 1:]))
                return self.pick(i, fs)
        elif all(self.same_dim(s, sizes[0]) for s in sizes):
            # equal blocks: a composite dimension (block number, index inside the block)
            dims[axis] = (len(xs),) + tuple(sizes[0])
            d0 = tuple(sizes[0])

            def content(idx):
                i = idx[axis]
                if len(i) == 1:
                    i = self.reindex(i, (self.dimval(dims[axis]),), dims[axis])
                return self.pick(i[0], [lambda k=k: rs[k](idx[:axis] + (i[1:] if len(sizes[k]) == len(d0) else self.reindex(i[1:], d0, sizes[k]),) + idx[axis + 1:]) for k in range(len(rs))])
        else:
            tot = self.g.ZERO
            offs = []
            for s in sizes:
                offs.append(tot)
                tot = self.g.add(tot, self.dimnode(s))
            dims[axis] = (tot,)

            def content(idx):
                i = self.node(idx[axis][0])
                r = None
                conds = []
                for k in range(len(rs)):
                    conds.append(self.lt(i, offs[k + 1]) if k < len(rs) - 1 else 1)
                    if conds[-1] == 1:
                        break
                for k in range(len(conds) - 1, -1, -1):
                    if conds[k] == 0:
                        continue
                    j = self.py(self.g.sub(i, offs[k]))
                    jj = (j,) if len(sizes[k]) == 1 else self.reindex((j,), (self.dimval(sizes[k]),), sizes[k])
                    v = rs[k](idx[:axis] + (jj,) + idx[axis + 1:])
                    r = v if r is None else self.g.sel(conds[k], v, r)
                return r
        return self.array(label, dims, self.memo(content), dt)

    def stack(self, xs, axis=0):
        xs = [self.arr(x) for x in xs]
        return self.concat([self.expand(x, axis if axis >= 0 else axis + x.ndim + 1) for x in xs], axis if axis >= 0 else axis + xs[0].ndim + 1, "stack")

    def reduce(self, a, axis, how, keepdims=False):
        """how: sum / any / all / max / min"""
        a = self.arr(a)
        g = self.g
        if axis is None:
            axes = list(range(a.ndim))
        else:
            axes = sorted(x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
        r = self.reader(a)
        red = [a.dims[k] for k in axes]
        if how == "max" and axis is None and a.buf.inverse_of is not None and not a.buf.writes and len(a.amap) == 1 and a.amap[0][0] == "ax":
            n = g.sub(a.buf.inverse_of, g.ONE)            # the largest position among the distinct values
            return self.array("max", [], lambda idx: n, "i8")
        keep = [k for k in range(a.ndim) if k not in axes]
        mat = a.matrix or a.sparse           # sums over a scipy sparse matrix are numpy matrices
        if mat and axis is not None:
            keepdims = True

        def full(idx, inner):
            out = [None] * a.ndim
            for k, i in zip(keep, idx):
                out[k] = i
            for k, i in zip(axes, inner):
                out[k] = i
            return tuple(out)

        def content(idx):
            if keepdims:
                idx = tuple(idx[k] for k in keep)
            if how == "sum":
                return self.total(red, lambda inner: r(full(idx, inner)))
            if all(isinstance(x, int) for d in red for x in d):
                vals = [r(full(idx, inner)) for inner in itertools.product(*[itertools.product(*[range(x) for x in d]) for d in red])]
                if how in ("any", "all"):
                    b = 0 if how == "any" else 1
                    for v in vals:
                        b = (g.b_or if how == "any" else g.b_and)(b, g.tobdd(v))
                    return g.boolnode(b)
                if not vals:
                    raise AnalysisError("extremum of nothing")
                m = vals[0]
                for v in vals[1:]:
                    m = self.amax(m, v) if how == "max" else self.amin(m, v)
                return m
            vals = [r(full(idx, inner)) for inner in itertools.product(*[[i for i, w in self.points(d)] for d in red])]
            sizes = [self.dimnode(d) for d in red]
            if how in ("any", "all"):
                if all(v is g.ONE for v in vals) or all(v is g.ZERO for v in vals):
                    return vals[0]
                return g.boolnode(g.b_atom("red:" + how, g.fn("vals", vals + sizes)))
            if all(v is vals[0] for v in vals):
                return vals[0]
            return g.fn("opaque:" + how, vals + sizes, isint=a.dtype[0] in "iu")
        dims = [(1,) if k in axes else a.dims[k] for k in range(a.ndim)] if keepdims else [a.dims[k] for k in keep]
        dt = "b1" if how in ("any", "all") else ("i8" if a.dtype == "b1" else a.dtype)
        out = self.array(how, dims, self.memo(content), dt, matrix=mat and keepdims)
        out.wrapper = a.wrapper
        return out

    def matmul(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if a.ndim == 0 or b.ndim == 0:
            return self.ew(self.g.mul, a, b)
        ra, rb = self.reader(a), self.reader(b)
        ka = a.ndim - 1
        kb = b.ndim - 2 if b.ndim >= 2 else 0
        da, db = a.dims[ka], b.dims[kb]
        if not self.same_dim(da, db):
            raise ShapeMismatch("matrix product of incompatible shapes")
        d = da if len(da) >= len(db) else db

        def content(idx):
            ia, ib = idx[:ka], idx[ka:]

            def term(inner):
                i = inner[0]
                xa = i if len(da) == len(i) else self.reindex(i, d, da)
                xb = i if len(db) == len(i) else self.reindex(i, d, db)
                return self.g.mul(ra(ia + (xa,)), rb(ib[:kb] + (xb,) + ib[kb:]))
            return self.total([d], term)
        dims = a.dims[:ka] + b.dims[:kb] + b.dims[kb + 1:]
        out = self.array("dot", dims, self.memo(content), "f8", sparse=a.sparse and b.sparse)
        out.wrapper = a.wrapper if a.wrapper != "numpy" else b.wrapper
        return out

    # ---- writes
    def write(self, a, val, site, cond=None, kind="store"):
        """a[...] = val through the view (cond: optional reader of a boolean mask over the view)"""
        self.log_write(a, site, kind)
        v = self.arr(val)
        rv = self.reader(v)
        old = a.buf.content
        am, dims = list(a.amap), list(a.dims)
        g = self.g
        for k, d in enumerate(v.dims):
            j = len(dims) - v.ndim + k
            if j < 0:
                if not self.is1(d):
                    raise ShapeMismatch("assignment of a larger array")
            elif not self.is1(d) and not self.same_dim(d, dims[j]):
                raise ShapeMismatch("assignment of an array of a different shape")

        def content(bidx):
            c = 1
            idx = [None] * len(dims)
            for m, i in zip(am, bidx):
                if m[0] == "fix":
                    for x, y in zip(m[1], i):
                        c = g.b_and(c, self.eq(self.node(x), self.node(y)))
                else:
                    st, sp = m[2], m[3]
                    if st == 0 and sp == 1:
                        vi = i
                        N = dims[m[1]]
                        # inside the slice?
                        bufd = bufdims[m_index[id(m)]]
                        if not self.same_dim(N, bufd):
                            c = g.b_and(c, self.lt(self.node(i[0]), self.dimnode(N)))
                    else:
                        q = self.py(self.g.div(self.g.sub(self.node(i[0]), self.node(st)), self.node(sp)))
                        if isinstance(q, Fraction):
                            return old(bidx)
                        if isinstance(q, int):
                            N = self.dimval(dims[m[1]])
                            if q < 0 or (isinstance(N, int) and q >= N):
                                return old(bidx)
                        else:
                            qn = self.node(q)
                            c = g.b_and(c, g.b_not(g.b_lt0(qn, True)))
                            c = g.b_and(c, self.lt(qn, self.dimnode(dims[m[1]])))
                        vi = (q,)
                    idx[m[1]] = vi
            for k in range(len(dims)):
                if idx[k] is None:
                    idx[k] = (0,) * len(dims[k])
            if c == 0:
                return old(bidx)
            vv = []
            for k, d in enumerate(v.dims):
                j = len(dims) - v.ndim + k
                if j < 0:
                    vv.append((0,) * len(d))
                    continue
                i = idx[j]
                vv.append((0,) * len(d) if self.is1(d) else i if len(i) == len(d) else self.reindex(i, dims[j], d))
            if cond is not None:
                c = g.b_and(c, g.tobdd(cond(tuple(idx))))
                if c == 0:
                    return old(bidx)
            return g.sel(c, rv(tuple(vv)), old(bidx))
        bufdims = list(a.buf.shape)
        m_index = {id(m): k for k, m in enumerate(am)}
        a.buf.content = self.memo(content)

    def log_write(self, a, site, kind):
        b = a.buf
        while b is not None:
            b.writes.append((kind, site))
            b = b.alias

    def scatter(self, a, ixs, val, site, accumulate):
        """a[ix] = val (or += with np.add.at) where ix are integer arrays for the leading axes of the view"""
        self.log_write(a, site, "scatter")
        g = self.g
        ixs = [self.arr(x) for x in ixs]
        v = self.arr(val)
        nd = max(x.ndim for x in ixs)
        idims = [(1,)] * nd
        for x in ixs:
            for k, d in enumerate(x.dims):
                idims[nd - x.ndim + k] = self.bdims(idims[nd - x.ndim + k], d)
        rx, rv = [self.reader(x) for x in ixs], self.reader(v)
        old = a.buf.content
        if any(m[0] == "fix" or m[2] != 0 or m[3] != 1 for m in a.amap) or [m[1] for m in a.amap] != list(range(a.ndim)):
            raise AnalysisError("scatter through a view")
        k = len(ixs)
        tail = a.dims[k:]
        vd = idims + tail

        def sub(idx, dims):
            ii = []
            for q, d in enumerate(dims):
                i = idx[len(idx) - len(dims) + q]
                ii.append((0,) * len(d) if self.is1(d) else i)
            return tuple(ii)

        def content(bidx):
            head, tl = bidx[:k], bidx[k:]
            same = self.delta if accumulate else (lambda p, q: g.fn("sameindex", (self.node(p), self.node(q))))

            def ind(inner):
                w = g.ONE
                for h, r, x in zip(head, rx, ixs):
                    w = g.mul(w, same(h[0] if len(h) == 1 else self.reindex(h, self_dims[0], (1,))[0], r(sub(inner, x.dims))))
                return w
            if accumulate:
                def term(inner):
                    return g.mul(ind(inner), rv(sub(inner + tuple(tl), v.dims)))
                return g.add(old(bidx), self.total(idims, term))
            # plain store: some element that maps here (all of them must agree for a deterministic result)
            args = [self.node(x) for h in head for x in h]
            vals = []
            for inner in itertools.product(*[[i for i, _ in self.points(d)] for d in idims]):
                vals.append(ind(inner))
                vals.append(rv(sub(inner + tuple(tl), v.dims)))
            return g.fn("opaque:scatter", args + vals + [old(bidx)])
        self_dims = a.dims
        a.buf.content = self.memo(content)


class ShapeMismatch(Exception):
    """an operation that raises for every input of the assumed shapes"""
