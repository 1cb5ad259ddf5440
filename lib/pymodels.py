"""Models of the library functions the Python sources call (numpy, scipy.sparse, torch, builtins)."""
import itertools
from fractions import Fraction
from gvn import Node, AnalysisError
from pynum import Arr, Opq, SymBool, ShapeMismatch, Buf
import pyinterp as P
from pyinterp import Ext, Inst, Cls, Func, Bound, Method, PtrVal, NULL, Null, Dtype, DTYPES, Mod, ExcVal


def bind(args, kw, *names):
    out = []
    kw = dict(kw)
    for i, n in enumerate(names):
        d = None
        if isinstance(n, tuple):
            n, d = n
        if i < len(args):
            out.append(args[i])
            kw.pop(n, None)
        else:
            out.append(kw.pop(n, d))
    return out


def dtype_name(v):
    if v is None:
        return None
    if isinstance(v, Dtype):
        return v.name
    if isinstance(v, Ext):
        return DTYPES.get(v.path.split(".")[-1])
    if isinstance(v, str):
        return DTYPES.get(v, v if v in ("f8", "f4", "u4", "i8") else None)
    return None


def dtype_of(v):
    if isinstance(v, (Dtype, Ext, str)):
        return dtype_name(v)
    return None


def shape_of(I, s):
    """list of dims for a shape argument"""
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            if isinstance(x, Arr) and x.ndim == 0:
                x = I.num.scalar(x)
            out.append(I.num.dim(x))
        return out
    if isinstance(s, Arr):
        n = I.num.dimval(s.dims[0])
        return [I.num.dim(I.num.py(I.num.at(s, ((k,),)))) for k in range(n)]
    return [I.num.dim(s)]


def mark(a, w):
    if isinstance(a, Arr):
        a.wrapper = w
    return a


def make_full(I, shape, v, dtype, label):
    if isinstance(shape, Opq):
        return Opq(I.g.fn("opq:" + label, (shape.node, I.term(v))), label, (shape,), "array")
    a = I.num.full(label, shape_of(I, shape), v, dtype or "f8")
    a.buf.site = I.site()
    return a


def uninit(I, shape, dtype, label="empty"):
    if isinstance(shape, Opq):
        return Opq(I.g.fn("opq:" + label, (shape.node,)), label, (shape,), "array")
    k = next(I.uid)
    a = I.num.param("uninit:%d" % k, shape_of(I, shape), dtype or "f8", owner="local")
    a.buf.site = I.site()
    a.buf.uninit = True
    return a


def like(I, x):
    return Opq(I.g.fn("shape", (x.node,)), "shape", (x,), "shape") if isinstance(x, Opq) else tuple(x.dims) if isinstance(x, Arr) else ()


def dt_like(x):
    return x.dtype if isinstance(x, Arr) else "f8"


def opq_any(*vs):
    for v in vs:
        if isinstance(v, Opq) and v.kind != "num":
            return True
        if isinstance(v, (list, tuple)) and opq_any(*v):
            return True
    return False


def opq_call(I, name, args, kw=None, kind="array"):
    ts = [I.term_index(a) if isinstance(a, (slice,)) else I.term(a) for a in args]
    if kw:
        ts.append(I.term({k: v for k, v in kw.items()}))
    return Opq(I.g.fn("opq:" + name, ts), name + "(...)", tuple(args), kind)


def axis_arg(ax):
    if isinstance(ax, Node):
        raise AnalysisError("symbolic axis")
    return ax


def reduce_(I, how, a, axis=None, keepdims=False, out=None, dtype=None):
    if isinstance(a, (list, tuple)):
        a = I.num.fromlist(a) if not opq_any(*a) else opq_call(I, "list", a)
    if isinstance(a, Opq) and a.kind != "num":
        if how in ("all", "any") and axis is None:
            return SymBool(I.g.b_atom("red:" + how, a.node))
        return opq_call(I, how, [a], {"axis": axis}, "num" if axis is None else "array")
    if not isinstance(a, Arr):
        if how in ("all", "any"):
            return I.sb(I.truth_bdd(a))
        return a
    r = I.num.reduce(a, axis_arg(axis), how, bool(keepdims))
    if out is not None:
        I.num.write(out, r, I.site())
        return out
    if r.ndim == 0:
        s = I.num.scalar(r)
        if how in ("max", "min") and isinstance(s, Node) and isinstance(a, Arr) and s.op == "fn":
            I.extremes[s.nid] = (how, a)
        return s
    return r


def cumsum(I, a, axis=None):
    if isinstance(a, Arr) and a.ndim != 1 or axis not in (None, 0, -1):
        raise I.err("cumsum of more than one dimension")
    out = []
    for x in I.iterate(a):
        out.append(x if not out else I.binop(_ast.Add(), out[-1], x))
    return I.num.fromlist(out) if not opq_any(*out) else opq_call(I, "cumsum", out)


def mean(I, a, axis=None, keepdims=False):
    s = reduce_(I, "sum", a, axis, keepdims)
    if isinstance(a, Opq):
        return opq_call(I, "mean", [a], {"axis": axis})
    a = I.num.arr(a)
    axes = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    n = I.g.ONE
    for k in axes:
        n = I.g.mul(n, I.num.dimnode(a.dims[k]))
    return I.elementwise(lambda x: I.g.mul(x, I.g.recip(n)), s, dtype="f8")


def cross(I, a, b, axis=-1):
    num, g = I.num, I.g
    if opq_any(a, b):
        return opq_call(I, "cross", [a, b])
    a, b = num.arr(a), num.arr(b)
    axis = axis_arg(axis)
    if axis not in (-1, a.ndim - 1) or axis not in (-1, b.ndim - 1):
        if axis == 1 and a.ndim == b.ndim == 2:
            pass
        else:
            raise I.err("cross product axis")
    da, db = num.dimval(a.dims[-1]), num.dimval(b.dims[-1])
    if da not in (2, 3) or db not in (2, 3):
        if isinstance(da, int) and isinstance(db, int):
            I.raise_("ValueError", "cross product of vectors of dimension %r and %r" % (da, db))
        raise I.err("cross product of vectors of unknown dimension")
    pa = [num.fix(a, a.ndim - 1, (k,)) for k in range(da)]
    pb = [num.fix(b, b.ndim - 1, (k,)) for k in range(db)]

    def comb(i, j):
        return I.elementwise(lambda x, y, z, w: g.sub(g.mul(x, y), g.mul(z, w)), pa[i], pb[j], pa[j], pb[i])
    if da == db == 2:
        return comb(0, 1)
    if da != db:
        raise I.err("cross product of mixed dimensions")
    parts = [comb(1, 2), comb(2, 0), comb(0, 1)]
    return num.stack(parts, -1)


def conv_dtype(I, a, dt):
    g = I.g
    if dt is None or dt == a.dtype:
        return None
    if dt == "b1":
        return lambda x: g.boolnode(g.tobdd(x)) if x.op != "bool" else x
    if dt[0] in "iu" and a.dtype[0] == "f":
        if dt == "u1":
            return lambda x: g.fn("trunc8", (x,), isint=True)
        return lambda x: x if x.isint else g.fn("trunc", (x,), isint=True)
    return lambda x: x


def astype(I, a, dt, copy=True):
    dt = dtype_name(dt)
    if isinstance(a, Opq):
        return opq_call(I, "astype:" + str(dt), [a])
    if not isinstance(a, Arr):
        a = I.num.arr(a)
    if not copy and (dt is None or dt == a.dtype):
        return a
    return I.num.copy(a, dtype=dt or a.dtype, conv=conv_dtype(I, a, dt))


def to_array(I, v, dt=None, copy=True, wrapper="numpy"):
    if isinstance(v, Opq):
        if v.kind == "shape" or v.kind is None or v.kind == "array" or v.kind == "object":
            return Opq(I.g.fn("opq:array", (v.node,)), "array(%s)" % v.label, (v,), "array") if copy else Opq(v.node, v.label, v.args, "array")
    if isinstance(v, (list, tuple)) and opq_any(*v):
        return opq_call(I, "array", v)
    if isinstance(v, Arr):
        if v.sparse:
            raise I.err("array of a sparse matrix")
        if not copy and (dt is None or dtype_name(dt) == v.dtype):
            return v
        r = I.num.copy(v, dtype=dtype_name(dt) or v.dtype, conv=conv_dtype(I, v, dtype_name(dt)))
        r.matrix = False
        r.wrapper = wrapper
        return r
    try:
        r = I.num.copy(I.num.arr(v), "array", dtype_name(dt) or None, conv_dtype(I, I.num.arr(v), dtype_name(dt)))
    except ShapeMismatch as e:
        I.raise_("ValueError", str(e))
    r.wrapper = wrapper
    return r


def minmax(I, hi, *vs):
    n = I.num
    return I.elementwise(n.amax if hi else n.amin, *vs)


def clip(I, x, lo, hi):
    if lo is not None:
        x = minmax(I, True, x, lo)
    if hi is not None:
        x = minmax(I, False, x, hi)
    return x


def reshape(I, a, shape):
    if isinstance(a, Opq):
        return opq_call(I, "reshape", [a, shape])
    if isinstance(shape, Opq):
        raise I.err("reshape to an opaque shape")
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    try:
        return I.num.reshape(a, [I.num.dim(x) for x in shape])
    except ShapeMismatch as e:
        I.raise_("ValueError", str(e))


def flatten(I, a, copy=True):
    if isinstance(a, Opq):
        return opq_call(I, "flatten", [a])
    r = I.num.reshape(a, [-1]) if a.ndim != 1 else I.num.view(a, a.dims, list(a.amap))
    if copy:
        r = I.num.copy(r)
    r.matrix = False
    return r


def tile(I, a, reps):
    num = I.num
    a = num.arr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    while a.ndim < len(reps):
        a = num.expand(a, 0)
    dims = []
    plan = []
    for d, r in zip(a.dims, reps):
        r = num.dim(r)
        if num.is1(r):
            dims.append(d)
            plan.append("keep")
        elif num.is1(d):
            dims.append(r)
            plan.append("new")
        else:
            dims.append(tuple(r) + tuple(d))
            plan.append(len(r))
    rd = num.reader(a)

    def content(idx):
        out = []
        for p, i, d, D in zip(plan, idx, a.dims, dims):
            if p == "keep":
                out.append(i)
            elif p == "new":
                out.append((0,) * len(d))
            else:
                if len(i) != len(D):
                    i = num.reindex(i, (num.dimval(D),), D)
                out.append(tuple(i[p:]))
        return rd(tuple(out))
    r = num.array("tile", dims, num.memo(content), a.dtype)
    r.wrapper = a.wrapper
    return r


def broadcast_to(I, a, shape):
    num = I.num
    a = num.arr(a)
    z = num.full("z", shape_of(I, shape), 0, a.dtype)
    return num.ew(lambda x, y: y, z, a, dtype=a.dtype)


def arange(I, *args, dtype=None):
    num, g = I.num, I.g
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    n = num.py(g.sub(num.node(hi), num.node(lo)))
    if st != 1:
        if not isinstance(n, int) or not isinstance(st, int):
            raise I.err("arange step")
        n = -(-n // st)
    lon, stn = num.node(lo), num.node(st)
    return num.array("arange", [n], lambda idx: g.add(lon, g.mul(stn, num.node(idx[0][0]))), dtype_name(dtype) or "i8")


def eye(I, n, m=None, dtype=None):
    num = I.num
    m = n if m is None else m
    return num.array("eye", [n, m], lambda idx: num.delta(idx[0][0] if len(idx[0]) == 1 else num.reindex(idx[0], (n,), (1,))[0], idx[1][0]), dtype_name(dtype) or "f8")


def column_stack(I, xs):
    xs = I.iterate(xs)
    if opq_any(*xs):
        return opq_call(I, "column_stack", xs)
    out = []
    for x in xs:
        x = I.num.arr(x)
        out.append(I.num.expand(x, 1) if x.ndim == 1 else x)
    return I.num.concat(out, 1, "column_stack")


def vstack(I, xs):
    xs = I.iterate(xs)
    if opq_any(*xs):
        return opq_call(I, "vstack", xs)
    out = []
    for x in xs:
        x = I.num.arr(x)
        out.append(I.num.expand(x, 0) if x.ndim == 1 else x)
    return I.num.concat(out, 0, "vstack")


def hstack(I, xs):
    xs = [I.num.arr(x) for x in I.iterate(xs)]
    return I.num.concat(xs, 0 if xs[0].ndim == 1 else 1, "hstack")


def concatenate(I, xs, axis=0):
    xs = I.iterate(xs)
    if opq_any(*xs):
        return opq_call(I, "concatenate", xs, {"axis": axis})
    if axis is None:
        xs, axis = [flatten(I, I.num.arr(x)) for x in xs], 0
    return I.num.concat(xs, axis)


def norm(I, x, axis=None, keepdims=False, ord=None):
    if ord is not None:
        return opq_call(I, "norm", [x, ord, axis])
    if opq_any(x):
        return opq_call(I, "norm", [x], {"axis": axis}, "num" if axis is None else "array")
    sq = I.elementwise(lambda v: I.g.mul(v, v), x)
    return I.elementwise(I.g.sqrt, reduce_(I, "sum", sq, axis, keepdims))


def std(I, x, axis=None, keepdims=False):
    m = mean(I, x, axis, True)
    d = I.elementwise(lambda a, b: I.g.mul(I.g.sub(a, b), I.g.sub(a, b)), x, m)
    return I.elementwise(I.g.sqrt, mean(I, d, axis, keepdims))


def det(I, a):
    num, g = I.num, I.g
    if opq_any(a):
        return opq_call(I, "det", [a])
    a = num.arr(a)
    n = num.dimval(a.dims[-1])
    if n not in (2, 3):
        raise I.err("determinant of size %r" % (n,))
    rd = num.reader(a)
    perms = [((0, 1), 1), ((1, 0), -1)] if n == 2 else [((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)]

    def content(idx):
        r = g.ZERO
        for p, s in perms:
            t = g.const(s)
            for i, j in enumerate(p):
                t = g.mul(t, rd(tuple(idx) + ((i,), (j,))))
            r = g.add(r, t)
        return r
    out = num.array("det", a.dims[:-2], num.memo(content))
    return num.scalar(out) if out.ndim == 0 else out


def unique(I, x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    num, g = I.num, I.g
    if opq_any(x):
        n = 1 + bool(return_index) + bool(return_inverse) + bool(return_counts)
        r = tuple(opq_call(I, "unique:%d" % k, [x]) for k in range(n))
        return r if n > 1 else r[0]
    x = num.arr(x)
    t = I.term(x)
    if axis is None and x.ndim != 1:
        x = flatten(I, x)
    rd = num.reader(x)
    N = x.dims[0]
    cnt = g.fn("nunique", (t,), isint=True)
    tail = [k for k in range(1, x.ndim)]

    def row(i):
        if not tail:
            return [rd((i,))]
        out = []
        for inner in itertools.product(*[[p for p, _ in num.points(x.dims[k])] for k in tail]):
            out.append(rd((i,) + tuple(inner)))
        return out
    first = lambda i: g.fn("ufirst", (t, num.node(i)), isint=True)
    def value(idx):
        k = num.node(idx[0][0])
        if k.op == "fn" and k.val == "uid" and k.args[0] is t:      # unique(x)[inverse[i]] is x[i]
            inner = [[p for p, _ in num.points(x.dims[q])] for q in tail]
            for n, p in enumerate(itertools.product(*inner)):
                if all(num.py(num.node(a)) == num.py(num.node(b)) for u, v in zip(p, idx[1:]) for a, b in zip(u, v)):
                    return k.args[1 + n]
        return rd((((num.py(first(idx[0][0]))),) if len(N) == 1 else num.reindex((first(idx[0][0]),), (num.dimval(N),), N),) + tuple(idx[1:]))
    vals = num.array("unique", [cnt] + [x.dims[k] for k in tail], num.memo(value), x.dtype)
    out = [vals]
    if return_index:
        out.append(num.array("unique_index", [cnt], num.memo(lambda idx: first(idx[0][0])), "i8"))
    if return_inverse:
        out.append(num.array("unique_inverse", [N], num.memo(lambda idx: g.fn("uid", [t] + row(idx[0]), isint=True)), "i8"))
        out[-1].buf.inverse_of = cnt
    if return_counts:
        out.append(num.array("unique_counts", [cnt], num.memo(lambda idx: num.total([N], lambda q: num.delta(g.fn("uid", [t] + row(q[0]), isint=True), idx[0][0]))), "i8"))
    return tuple(out) if len(out) > 1 else out[0]


def coo(I, arg, shape=None, dtype=None):
    num, g = I.num, I.g
    if isinstance(arg, Arr):
        r = num.view(arg, arg.dims, list(arg.amap))
        r.sparse = True
        return r
    v, ij = arg
    i, j = ij
    v, i, j = num.arr(v), num.arr(i), num.arr(j)
    dims = shape_of(I, shape)
    rv, ri, rj = num.reader(v), num.reader(i), num.reader(j)
    D = max((v.dims[0], i.dims[0], j.dims[0]), key=len)
    for x in (v, i, j):
        if not num.same_dim(x.dims[0], D):
            I.raise_("ValueError", "row, column and data arrays of different lengths")

    def rx(r, x, inner):
        d = x.dims[0]
        q = inner[0]
        return r((q if len(d) == len(q) else num.reindex(q, D, d),))

    def flat(ix, d):
        return ix[0] if len(ix) == 1 else num.reindex(ix, d, (num.dimval(d),))[0]

    def content(idx):
        a, b = flat(idx[0], dims[0]), flat(idx[1], dims[1])
        return num.total([D], lambda inner: g.mul(rx(rv, v, inner), g.mul(num.delta(rx(ri, i, inner), a), num.delta(rx(rj, j, inner), b))))
    m = num.array("coo", dims, num.memo(content), "f8" if v.dtype == "b1" else v.dtype, sparse=True)
    if num.opaque_sparse:
        def part(r, x):          # one term for the same entries, whether they come as a matrix or in a row
            if len(x.dims[0]) < len(D):
                try:
                    return I.term(num.array("coo-part", [D], num.memo(lambda idx: rx(r, x, idx)), x.dtype))
                except AnalysisError:
                    pass
            return I.term(x)
        t = g.fn("coo", [part(rv, v), part(ri, i), part(rj, j)])
        m = num.array("sparse", dims, num.memo(lambda idx: g.fn("sp", [t] + [num.node(flat(ix, d)) for ix, d in zip(idx, dims)], isint=v.dtype[0] in "iu")), "f8" if v.dtype == "b1" else v.dtype, sparse=True)
    m.buf.coo = (v, i, j)
    return m


def spdiags(I, diags, offsets=0, shape=None):
    num, g = I.num, I.g
    d = diags[0] if isinstance(diags, (list, tuple)) else diags
    off = offsets[0] if isinstance(offsets, (list, tuple)) else offsets
    if off != 0:
        raise I.err("off-diagonal")
    d = num.arr(d)
    if d.ndim == 2:
        d = num.fix(d, 0, (0,))
    rd = num.reader(d)
    dims = shape_of(I, shape) if shape is not None else [d.dims[0], d.dims[0]]
    return num.array("diags", dims, num.memo(lambda idx: g.mul(num.delta(idx[0][0], idx[1][0]), rd((idx[0],)))), sparse=True)


def kron(I, a, b):
    num, g = I.num, I.g
    ra, rb = num.reader(a), num.reader(b)
    dims = [tuple(x) + tuple(y) for x, y in zip(a.dims, b.dims)]
    la = [len(x) for x in a.dims]

    def content(idx):
        ii = [i if len(i) == len(d) else num.reindex(i, (num.dimval(d),), d) for i, d in zip(idx, dims)]
        return g.mul(ra(tuple(i[:n] for i, n in zip(ii, la))), rb(tuple(i[n:] for i, n in zip(ii, la))))
    return num.array("kron", dims, num.memo(content), sparse=True)


def todense(I, a):
    r = I.num.copy(a, "dense")
    r.sparse = False
    r.matrix = True
    return r


def where(I, c, *ab):
    g = I.g
    if not ab:
        c = I.num.arr(c)
        t = I.term(c)
        n = I.num.dim(g.fn("count", (t,), isint=True))
        return tuple(I.num.array("nonzero", [n], lambda idx, q=q: g.fn("nz:%d" % q, (t, I.num.node(idx[0][0])), isint=True), "i8") for q in range(c.ndim))
    if opq_any(c, *ab):
        return opq_call(I, "where", [c] + list(ab))
    r = I.elementwise(lambda x, a, b: g.sel(g.tobdd(x), a, b), c, *ab)
    if isinstance(r, Arr):
        r.dtype = I.num.result_dtype([I.num.arr(x) for x in ab])
    return r


def copy_copy(I, v):
    if isinstance(v, Arr):
        return I.num.copy(v)
    if isinstance(v, (list, dict, set)):
        return v.copy()
    if isinstance(v, Opq):
        return Opq(v.node, v.label, v.args, v.kind)
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = dict(v.attrs)
        return o
    return v


def deepcopy(I, v):
    if isinstance(v, (list, tuple)):
        return type(v)(deepcopy(I, x) for x in v)
    if isinstance(v, dict):
        return {k: deepcopy(I, x) for k, x in v.items()}
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = {k: deepcopy(I, x) for k, x in v.attrs.items()}
        return o
    return copy_copy(I, v)


def un(f):
    def h(I, args, kw):
        out = kw.get("out")
        r = I.elementwise(lambda x: f(I.g, x), args[0])
        if out is not None:
            I.num.write(out, r, I.site())
            return out
        return r
    return h


def binf(f, dtype=None):
    def h(I, args, kw):
        r = I.elementwise(lambda x, y: f(I, x, y), args[0], args[1], dtype=dtype)
        out = kw.get("out", args[2] if len(args) > 2 else None)
        if out is not None:
            I.num.write(out, r, I.site())
            return out
        return r
    return h


def boolf(how):
    def h(I, args, kw):
        g = I.g

        def f(x, y=None):
            p = g.tobdd(x)
            if how == "not":
                return g.boolnode(g.b_not(p))
            q = g.tobdd(y)
            return g.boolnode(g.b_and(p, q) if how == "and" else g.b_or(p, q) if how == "or" else g.ite(p, g.b_not(q), q))
        r = I.elementwise(f, *args[:2 if how != "not" else 1], dtype="b1")
        return I.sb(g.tobdd(r)) if isinstance(r, Node) else r
    return h


def cmpf(op):
    def h(I, args, kw):
        return I.compare(op, args[0], args[1])
    return h


def opaque_fn(name):
    def h(I, args, kw):
        return I.elementwise(lambda *x: I.g.fn("opaque:" + name, x), *args)
    return h


def einsum(I, args, kw):
    num, g = I.num, I.g
    spec = args[0].replace(" ", "")
    if "..." in spec:
        raise I.err("einsum ellipsis")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    xs = [num.arr(x) for x in args[1:]]
    dims = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            I.raise_("ValueError", "einsum rank")
        for c, d in zip(s, x.dims):
            if c in dims and not num.same_dim(dims[c], d):
                I.raise_("ValueError", "einsum dimension")
            if c not in dims or len(d) > len(dims[c]):
                dims[c] = d
    if out is None:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    red = [c for c in dims if c not in out]
    rs = [num.reader(x) for x in xs]

    def content(idx):
        base = dict(zip(out, idx))

        def term(inner):
            e = dict(base)
            e.update(zip(red, inner))
            t = g.ONE
            for s, r, x in zip(ins, rs, xs):
                t = g.mul(t, r(tuple(e[c] if len(e[c]) == len(d) else num.reindex(e[c], dims[c], d) for c, d in zip(s, x.dims))))
            return t
        return num.total([dims[c] for c in red], term)
    r = num.array("einsum", [dims[c] for c in out], num.memo(content))
    return num.scalar(r) if r.ndim == 0 else r


def add_at(I, args, kw):
    a, ix, v = args
    num = I.num
    if isinstance(v, Arr) and v.dtype == "b1":
        v = num.copy(v, dtype="f8")
    ixs = list(ix) if isinstance(ix, tuple) else [ix]
    if any(isinstance(x, slice) for x in ixs):
        raise I.err("np.add.at with a slice")
    try:
        num.scatter(a, ixs, v, I.site(), True)
    except ShapeMismatch as e:
        I.raise_("ValueError", str(e))


def sort_of(I, args, kw):
    return opq_call(I, "sort", args, kw)


def allclose(I, args, kw):
    return SymBool(I.g.b_atom("allclose", I.g.fn("pair", [I.term(x) for x in args[:2]])))


def prod(I, a):
    if isinstance(a, (tuple, list)):
        r = 1
        for x in a:
            r = I.binop(_MULT, r, x)
        return r
    if isinstance(a, Opq) and a.kind == "shape":
        return I.g.fn("size", (a.args[0].node,), isint=True)
    if isinstance(a, Opq):
        return opq_call(I, "prod", [a], None, "num")
    raise I.err("product of an array")


import ast as _ast
_MULT = _ast.Mult()
_ADD = _ast.Add()


def N(f, *names):
    """plain model: positional names bound then passed"""
    def h(I, args, kw):
        return f(I, *bind(args, kw, *names))
    return h


def ascontig(I, args, kw):
    v, dt = bind(args, kw, "a", "dtype")
    if isinstance(v, Opq):
        # may be the same memory or a converted copy
        return Opq(v.node, v.label, v.args, "array")
    if isinstance(v, Arr):
        d = dtype_name(dt)
        if d is None or d == v.dtype or (d == "u1" and v.dtype == "b1"):
            r = I.num.view(v, v.dims, list(v.amap))
            r.dtype = d or v.dtype
            return r
        return astype(I, v, dt)
    return to_array(I, v, dt)


NP = {
    "zeros": N(lambda I, s, dt, o: make_full(I, s, 0, dtype_name(dt), "zeros"), "shape", "dtype", "order"),
    "ones": N(lambda I, s, dt, o: make_full(I, s, 1, dtype_name(dt), "ones"), "shape", "dtype", "order"),
    "full": N(lambda I, s, v, dt: make_full(I, s, v, dtype_name(dt) or ("i8" if isinstance(v, int) else "f8"), "full"), "shape", "fill_value", "dtype"),
    "empty": N(lambda I, s, dt, o: uninit(I, s, dtype_name(dt)), "shape", "dtype", "order"),
    "zeros_like": N(lambda I, x, dt: make_full(I, like(I, x), 0, dtype_name(dt) or dt_like(x), "zeros"), "a", "dtype"),
    "ones_like": N(lambda I, x, dt: make_full(I, like(I, x), 1, dtype_name(dt) or dt_like(x), "ones"), "a", "dtype"),
    "full_like": N(lambda I, x, v, dt: make_full(I, like(I, x), v, dtype_name(dt) or dt_like(x), "full"), "a", "fill_value", "dtype"),
    "empty_like": N(lambda I, x, dt: uninit(I, like(I, x), dtype_name(dt) or dt_like(x)), "a", "dtype"),
    "array": N(lambda I, v, dt, c: to_array(I, v, dt, True if c is None else bool(c)), "object", "dtype", "copy"),
    "asarray": N(lambda I, v, dt: to_array(I, v, dt, False), "a", "dtype"),
    "asanyarray": N(lambda I, v, dt: to_array(I, v, dt, False), "a", "dtype"),
    "ascontiguousarray": ascontig,
    "require": ascontig,
    "copy": N(lambda I, v: to_array(I, v, None, True), "a"),
    "sum": N(lambda I, a, ax, dt, o, k: reduce_(I, "sum", a, ax, k, o), "a", "axis", "dtype", "out", "keepdims"),
    "all": N(lambda I, a, ax, o, k: reduce_(I, "all", a, ax, k), "a", "axis", "out", "keepdims"),
    "any": N(lambda I, a, ax, o, k: reduce_(I, "any", a, ax, k), "a", "axis", "out", "keepdims"),
    "max": N(lambda I, a, ax, o, k: reduce_(I, "max", a, ax, k), "a", "axis", "out", "keepdims"),
    "min": N(lambda I, a, ax, o, k: reduce_(I, "min", a, ax, k), "a", "axis", "out", "keepdims"),
    "cumsum": N(lambda I, a, ax: cumsum(I, a, ax), "a", "axis"),
    "append": N(lambda I, a, v, ax: concatenate(I, [to_array(I, a, None, False), to_array(I, v, None, False)], ax), "arr", "values", "axis"),
    "mean": N(lambda I, a, ax, dt, o, k: mean(I, a, ax, k), "a", "axis", "dtype", "out", "keepdims"),
    "std": N(lambda I, a, ax: std(I, a, ax), "a", "axis"),
    "count_nonzero": N(lambda I, a: reduce_(I, "sum", I.elementwise(lambda x: x, a), None), "a"),
    "prod": N(prod, "a"),
    "cross": N(lambda I, a, b, x, y, z, ax: cross(I, a, b, -1 if ax is None else ax), "a", "b", "axisa", "axisb", "axisc", "axis"),
    "dot": N(lambda I, a, b: I.matmul(a, b), "a", "b"),
    "matmul": N(lambda I, a, b: I.matmul(a, b), "a", "b"),
    "inner": N(lambda I, a, b: I.matmul(a, I.num.transpose(I.num.arr(b))), "a", "b"),
    "outer": N(lambda I, a, b: I.binop(_MULT, I.num.expand(I.num.arr(a), 1), I.num.expand(I.num.arr(b), 0)), "a", "b"),
    "einsum": einsum,
    "sqrt": un(lambda g, x: g.sqrt(x)), "abs": un(lambda g, x: g.sel(g.b_lt0(x, x.isint), g.neg(x), x)), "absolute": un(lambda g, x: g.sel(g.b_lt0(x, x.isint), g.neg(x), x)),
    "square": un(lambda g, x: g.mul(x, x)), "negative": un(lambda g, x: g.neg(x)), "reciprocal": un(lambda g, x: g.recip(x)),
    "floor": un(lambda g, x: g.floor(x)), "ceil": un(lambda g, x: g.ceil(x)),
    "sign": un(lambda g, x: g.sel(g.b_lt0(x, x.isint), g.const(-1), g.sel(g.b_eq0(x), g.ZERO, g.ONE))),
    "add": binf(lambda I, x, y: I.g.add(x, y)), "subtract": binf(lambda I, x, y: I.g.sub(x, y)), "multiply": binf(lambda I, x, y: I.g.mul(x, y)),
    "divide": binf(lambda I, x, y: I.g.div(x, y), "f8"), "true_divide": binf(lambda I, x, y: I.g.div(x, y), "f8"), "power": binf(lambda I, x, y: I.power(x, y)),
    "maximum": binf(lambda I, x, y: I.num.amax(x, y)), "minimum": binf(lambda I, x, y: I.num.amin(x, y)), "fmax": binf(lambda I, x, y: I.num.amax(x, y)),
    "logical_and": boolf("and"), "logical_or": boolf("or"), "logical_xor": boolf("xor"), "logical_not": boolf("not"), "invert": boolf("not"),
    "bitwise_and": boolf("and"), "bitwise_or": boolf("or"),
    "equal": cmpf(_ast.Eq()), "not_equal": cmpf(_ast.NotEq()), "less": cmpf(_ast.Lt()), "less_equal": cmpf(_ast.LtE()), "greater": cmpf(_ast.Gt()), "greater_equal": cmpf(_ast.GtE()),
    "clip": N(lambda I, x, a, b: clip(I, x, a, b), "a", "a_min", "a_max"),
    "where": lambda I, a, k: where(I, *a), "nonzero": lambda I, a, k: where(I, a[0]),
    "reshape": N(lambda I, a, s: reshape(I, I.num.arr(a) if not isinstance(a, Opq) else a, s), "a", "newshape"),
    "ravel": N(lambda I, a: flatten(I, a, False), "a"),
    "transpose": N(lambda I, a, p: I.num.transpose(I.num.arr(a), p), "a", "axes"),
    "swapaxes": N(lambda I, a, i, j: swap(I, a, i, j), "a", "axis1", "axis2"),
    "expand_dims": N(lambda I, a, ax: I.num.expand(I.num.arr(a), ax), "a", "axis"),
    "squeeze": N(lambda I, a, ax: method(I, a, "squeeze", [], {"axis": ax}), "a", "axis"),
    "atleast_1d": N(lambda I, a: a if isinstance(a, Arr) and a.ndim else I.num.expand(I.num.arr(a), 0), "a"),
    "tile": N(tile, "A", "reps"), "broadcast_to": N(broadcast_to, "array", "shape"),
    "repeat": N(lambda I, a, r, ax: repeat(I, a, r, ax), "a", "repeats", "axis"),
    "arange": lambda I, a, k: arange(I, *a, dtype=k.get("dtype")),
    "eye": N(lambda I, n, m, k, dt: eye(I, n, m, dt), "N", "M", "k", "dtype"), "identity": N(lambda I, n, dt: eye(I, n, None, dt), "n", "dtype"),
    "diag": N(lambda I, a: diag(I, a), "v"),
    "column_stack": N(column_stack, "tup"), "vstack": N(vstack, "tup"), "hstack": N(hstack, "tup"), "concatenate": N(lambda I, x, ax: concatenate(I, x, 0 if ax is None else ax), "arrays", "axis"),
    "stack": N(lambda I, x, ax: I.num.stack(I.iterate(x), 0 if ax is None else ax) if not opq_any(x) else opq_call(I, "stack", I.iterate(x)), "arrays", "axis"),
    "dstack": N(lambda I, x: dstack(I, x), "tup"),
    "unique": N(lambda I, x, a, b, c, ax: unique(I, x, a, b, c, ax), "ar", "return_index", "return_inverse", "return_counts", "axis"),
    "add.at": add_at,
    "allclose": allclose, "isclose": lambda I, a, k: opq_call(I, "isclose", a[:2]), "array_equal": lambda I, a, k: SymBool(I.g.b_atom("array_equal", I.g.fn("pair", [I.term(x) for x in a[:2]]))),
    "isnan": lambda I, a, k: I.elementwise(lambda x: I.g.boolnode(I.g.b_atom("nan", x)), a[0], dtype="b1"),
    "isfinite": lambda I, a, k: I.elementwise(lambda x: I.g.boolnode(I.g.b_not(I.g.b_atom("notfinite", x))), a[0], dtype="b1"),
    "issubdtype": lambda I, a, k: (dtype_name(a[0]) or "f8")[0] in "iu" if str(a[1].path).endswith("integer") else True,
    "linalg.norm": N(lambda I, x, o, ax, k: norm(I, x, ax, k, o), "x", "ord", "axis", "keepdims"),
    "linalg.det": N(det, "a"),
    "sort": sort_of, "argsort": sort_of,
    "bincount": lambda I, a, k: bincount(I, a, k),
    "shape": lambda I, a, k: arr_attr(I, a[0], "shape") if isinstance(a[0], Arr) else I.getattr(a[0], "shape"),
    "ndim": lambda I, a, k: I.getattr(a[0], "ndim"), "size": lambda I, a, k: I.getattr(a[0], "size"),
    "may_share_memory": lambda I, a, k: a[0].buf.root() is a[1].buf.root(), "shares_memory": lambda I, a, k: a[0].buf.root() is a[1].buf.root(),
    "copyto": lambda I, a, k: I.num.write(a[0], a[1], I.site()),
    "float64": lambda I, a, k: I.elementwise(lambda x: x, a[0]) if a else 0, "double": lambda I, a, k: a[0], "int32": lambda I, a, k: a[0], "uint32": lambda I, a, k: a[0],
    "uint64": lambda I, a, k: a[0], "int64": lambda I, a, k: a[0], "float32": lambda I, a, k: a[0], "bool_": lambda I, a, k: a[0],
}
for _n in ("tan", "arctan", "sin", "cos", "exp", "log", "degrees", "radians", "arccos", "arcsin", "deg2rad", "rad2deg", "rint", "round", "arctan2", "trunc", "tanh"):
    NP[_n] = opaque_fn(_n)
for _ns, _k in ((("deg2rad", "radians"), lambda I: I.g.div(I.g.sym("pi"), I.g.const(180))), (("rad2deg", "degrees"), lambda I: I.g.div(I.g.const(180), I.g.sym("pi")))):
    for _n in _ns:
        NP[_n] = (lambda k: lambda I, a, kw: I.elementwise(lambda x: I.g.mul(x, k(I)), a[0], dtype="f8"))(_k)


def swap(I, a, i, j):
    a = I.num.arr(a)
    p = list(range(a.ndim))
    i, j = i % a.ndim, j % a.ndim
    p[i], p[j] = p[j], p[i]
    return I.num.transpose(a, p)


def diag(I, a):
    num, g = I.num, I.g
    a = num.arr(a)
    rd = num.reader(a)
    if a.ndim == 1:
        return num.array("diag", [a.dims[0], a.dims[0]], num.memo(lambda idx: g.mul(num.delta(idx[0][0], idx[1][0]), rd((idx[0],)))))
    return num.array("diag", [a.dims[0]], num.memo(lambda idx: rd((idx[0], idx[0]))))


def dstack(I, xs):
    out = []
    for x in I.iterate(xs):
        x = I.num.arr(x)
        if x.ndim == 1:
            x = I.num.expand(x, 0)
        if x.ndim == 2:
            x = I.num.expand(x, 2)
        out.append(x)
    return I.num.concat(out, 2, "dstack")


def repeat(I, a, r, ax):
    num = I.num
    a = num.arr(a)
    if ax is None:
        a, ax = flatten(I, a), 0
    ax %= a.ndim
    d = tuple(a.dims[ax]) + num.dim(r)
    dims = list(a.dims)
    dims[ax] = d
    n = len(a.dims[ax])
    rd = num.reader(a)

    def content(idx):
        i = idx[ax]
        if len(i) != len(d):
            i = num.reindex(i, (num.dimval(d),), d)
        return rd(tuple(idx[:ax]) + (tuple(i[:n]),) + tuple(idx[ax + 1:]))
    return num.array("repeat", dims, num.memo(content), a.dtype)


def bincount(I, args, kw):
    x, w, m = bind(args, kw, "x", "weights", "minlength")
    num, g = I.num, I.g
    x = num.arr(x)
    if m is None:
        raise I.err("bincount of unknown length")
    a = num.full("bincount", [num.dim(m)], 0)
    num.scatter(a, [x], 1 if w is None else w, I.site(), True)
    return a


SP = {
    "coo_matrix": N(lambda I, a, s, dt: coo(I, a, s, dt), "arg1", "shape", "dtype"), "csr_matrix": N(lambda I, a, s, dt: coo(I, a, s, dt), "arg1", "shape", "dtype"),
    "csc_matrix": N(lambda I, a, s, dt: coo(I, a, s, dt), "arg1", "shape", "dtype"),
    "eye": N(lambda I, n, m: sparse_(eye(I, n, m)), "m", "n"), "identity": N(lambda I, n: sparse_(eye(I, n)), "n"),
    "diags": N(spdiags, "diagonals", ("offsets", 0), "shape"), "spdiags": N(lambda I, d, o, m, n: spdiags(I, d, o, (m, n)), "data", "diags", "m", "n"),
    "kron": N(lambda I, a, b: kron(I, a, b), "A", "B"),
    "csgraph.connected_components": lambda I, a, k: (I.g.fn("ncomponents", (I.g.sym("graph"),), isint=True), Opq(I.g.sym("labels"), "labels", (), "array")),
}


def sparse_(a):
    a.sparse = True
    return a


def constant(I, path):
    if path in ("numpy.pi", "math.pi"):
        return I.g.sym("pi")
    if path in ("numpy.inf", "math.inf"):
        return float("inf")
    if path in ("numpy.nan",):
        return float("nan")
    if path == "numpy.newaxis":
        return None
    return None


def arr_attr(I, a, name):
    num = I.num
    if name == "shape":
        return tuple(num.dimval(d) for d in a.dims)
    if name == "T":
        r = num.transpose(a)
        return r
    if name == "ndim":
        return a.ndim
    if name == "size":
        n = I.g.ONE
        for d in a.dims:
            n = I.g.mul(n, num.dimnode(d))
        return num.py(n)
    if name == "dtype":
        return Dtype(a.dtype)
    if name == "data":
        if a.sparse and getattr(a.buf, "coo", None):
            return a.buf.coo[0]
        if a.wrapper == "torch":
            return a
        if not a.sparse:
            return PtrVal(a)
    if name in ("row", "col") and a.sparse and getattr(a.buf, "coo", None):
        return a.buf.coo[1 if name == "row" else 2]
    if name in ("row", "col", "data", "nnz") and a.sparse:
        t = I.term(a)
        nnz = I.g.fn("nnz", (t,), isint=True)
        if name == "nnz":
            return num.py(nnz)
        I.coo_terms[t.nid] = a
        return num.array("coo_" + name, [nnz], num.memo(lambda idx: I.g.fn("coo:" + name, (t, num.node(idx[0][0])), isint=name != "data")), "f8" if name == "data" else "i4")
    if name == "flat":
        return flatten(I, a, False)
    if name == "base":
        return None
    if name == "flags":
        return Opq(I.g.fn("flags", (I.term(a),)), "flags", (a,), "object")
    if name == "A":
        return todense(I, a)
    if name == "requires_grad":
        return SymBool(I.g.b_atom("requires_grad", I.g.sym("tensor:%s" % a.buf.label)))
    if name == "grad":
        return None
    return Method(a, name)


def size_args(args):
    return args[0] if len(args) == 1 and isinstance(args[0], (tuple, list, Opq)) else tuple(args)


def method(I, o, name, args, kw):
    num, g = I.num, I.g
    if isinstance(o, Opq):
        return opq_method(I, o, name, args, kw)
    if isinstance(o, (int, float, Fraction, Node, SymBool)) or isinstance(o, Arr) and o.ndim == 0 and name in ("item", "sum", "max", "min"):
        if name in ("copy", "item", "squeeze", "flatten", "detach", "numpy", "clone", "double", "sum", "max", "min", "mean", "cpu", "item"):
            return num.scalar(o) if isinstance(o, Arr) else o
        if name in ("all", "any"):
            return I.sb(I.truth_bdd(o))
        if name == "astype":
            return o
        o = num.arr(o)
    if isinstance(o, Arr):
        return arr_method(I, o, name, args, kw)
    if isinstance(o, dict):
        if name == "items":
            return [(k, v) for k, v in o.items()]
        if name == "keys":
            return list(o.keys())
        if name == "values":
            return list(o.values())
        if name == "get":
            return o.get(I.key(args[0]), args[1] if len(args) > 1 else None)
        if name == "update":
            for a in args:
                o.update(a)
            o.update(kw)
            return None
        if name == "copy":
            return dict(o)
        if name == "pop":
            k = I.key(args[0])
            if k in o:
                return o.pop(k)
            if len(args) > 1:
                return args[1]
            I.raise_("KeyError", k)
        if name == "setdefault":
            return o.setdefault(I.key(args[0]), args[1] if len(args) > 1 else None)
        if name == "clear":
            o.clear()
            return None
    if isinstance(o, list):
        if name == "append":
            o.append(args[0])
            return None
        if name == "extend":
            o.extend(I.iterate(args[0]))
            return None
        if name == "insert":
            o.insert(*args)
            return None
        if name == "pop":
            return o.pop(*args)
        if name == "copy":
            return list(o)
        if name == "clear":
            o.clear()
            return None
        if name == "reverse":
            o.reverse()
            return None
        if name == "index":
            return o.index(args[0])
        if name in ("sort",):
            o.sort()
            return None
    if isinstance(o, (set, frozenset)) and name in ("add", "update", "discard"):
        getattr(o, name)(*args)
        return None
    if isinstance(o, str):
        if name in ("format", "join"):
            return "<formatted>"
        return getattr(o, name)(*args)
    if isinstance(o, tuple):
        return getattr(o, name)(*args)
    if isinstance(o, P.Super):
        if name in ("__init__", "__setattr__", "__init_subclass__"):
            if name == "__setattr__":
                o.self_.attrs[args[0]] = args[1]
            return None
    if isinstance(o, Inst):
        h = I.ext_hooks.get("method:" + name)
        if h is not None:
            return h(I, o, args, kw)
    if isinstance(o, Cls):
        h = I.ext_hooks.get("classmethod:" + name)
        if h is not None:
            return h(I, o, args, kw)
    raise I.err("method %s of %r" % (name, o))


def opq_method(I, o, name, args, kw):
    g = I.g
    if name in ("flatten", "ravel", "reshape", "copy", "astype", "squeeze", "dot", "view", "detach", "numpy", "transpose", "sum", "max", "min", "mean", "clip", "contiguous", "double", "clone", "tolist"):
        if name in ("flatten", "ravel"):
            return opq_call(I, "flatten", [o])
        if name == "astype":
            return astype(I, o, args[0] if args else kw.get("dtype"))
        if name == "copy":
            r = Opq(o.node, o.label, o.args, o.kind)
            r.args = ("copy", o)
            return r
        return opq_call(I, name, [o] + list(args), kw, "num" if name in ("max", "min", "sum", "mean") and not args and not kw else "array")
    if name in ("all", "any"):
        return reduce_(I, name, o, *args, **kw)
    if name == "fill":
        I.events.append(("opaque-write", o, I.site()))
        return None
    if name == "setflags":
        return None
    h = I.ext_hooks.get("method:" + name)
    if h is not None:
        return h(I, o, args, kw)
    return opq_call(I, "method:" + name, [o] + list(args), kw, "object")


def arr_method(I, a, name, args, kw):
    num, g = I.num, I.g
    if name == "dim" and a.wrapper == "torch":
        return a.ndim
    if name in ("sum", "max", "min", "all", "any", "mean", "std"):
        kw = dict(kw)
        if "dim" in kw:
            kw["axis"] = kw.pop("dim")
        if "keepdim" in kw:
            kw["keepdims"] = kw.pop("keepdim")
        kw.pop("dtype", None)
        if name == "mean":
            return mean(I, a, *bind(args, kw, "axis", ("keepdims", False)))
        if name == "std":
            return std(I, a, *bind(args, kw, "axis"))
        return reduce_(I, name, a, *args, **kw)
    if name in ("dot", "matmul", "mm", "mv", "__matmul__", "multiply_sparse"):
        return I.matmul(a, args[0])
    if name in ("copy", "clone", "contiguous") or name in ("tocsr", "tocsc", "tocoo", "coalesce"):
        if name in ("tocsr", "tocsc", "tocoo", "coalesce"):
            r = num.view(a, a.dims, list(a.amap))
            r.sparse = True
            return r
        if name == "contiguous":
            return a
        return num.copy(a)
    if name in ("todense",):
        return todense(I, a)
    if name in ("toarray", "to_dense"):
        r = num.copy(a, "dense")
        r.sparse = False
        return r
    if name in ("flatten", "ravel"):
        return flatten(I, a, name == "flatten" and a.wrapper != "torch")
    if name in ("reshape", "view", "resize"):
        return reshape(I, a, size_args(args))
    if name == "reshape_as":
        return reshape(I, a, tuple(num.dimval(d) for d in args[0].dims))
    if name == "astype":
        dt, c = bind(args, kw, "dtype", "copy")
        return astype(I, a, dt, True if c is None else c)
    if name == "squeeze":
        kw = dict(kw)
        ax = args[0] if args else kw.get("axis", kw.get("dim"))
        try:
            return num.squeeze(a, ax)
        except ShapeMismatch as e:
            I.raise_("ValueError", str(e))
    if name == "unsqueeze":
        return num.expand(a, args[0] if args else kw["dim"])
    if name in ("transpose", "permute"):
        p = size_args(args)
        if a.wrapper == "torch" and name == "transpose":
            return swap(I, a, *p)
        return num.transpose(a, p or None)
    if name == "t":
        return num.transpose(a)
    if name == "swapaxes":
        return swap(I, a, *args)
    if name == "fill" or name == "fill_" or name == "zero_":
        num.write(a, 0 if name == "zero_" else args[0], I.site(), kind="fill")
        return a if name != "fill" else None
    if name in ("sqrt", "abs", "square"):
        return NP[name](I, [a], {})
    if name in ("pow",):
        return I.elementwise(lambda x, y: I.power(x, y), a, args[0])
    if name in ("clip", "clamp"):
        lo, hi = bind(args, kw, "min", "max")
        return clip(I, a, lo, hi)
    if name == "relu":
        return minmax(I, True, a, 0)
    if name in ("detach", "numpy") and getattr(I, "grad_cut", None) is not None:
        r = I.grad_cut(I, a, args, kw, name)
        if r is not NotImplemented:
            return r
    if name in ("detach", "cpu", "double", "requires_grad_", "numpy", "to", "type"):
        r = num.view(a, a.dims, list(a.amap))
        r.wrapper = "numpy" if name == "numpy" else "torch"
        return r
    if name == "setflags":
        return None
    if name == "item":
        return num.scalar(num.squeeze(a))
    if name == "tolist":
        return I.iterate(a)
    if name == "repeat":
        if a.wrapper == "torch":
            return mark(tile(I, a, size_args(args)), "torch")
        return repeat(I, a, *bind(args, kw, "repeats", "axis"))
    if name == "nonzero":
        return where(I, a)
    if name == "multiply":
        return I.binop(_MULT, a, args[0])
    if name == "diagonal":
        return diag(I, a)
    if name == "size" and a.wrapper == "torch":
        return num.dimval(a.dims[args[0]]) if args else tuple(num.dimval(d) for d in a.dims)
    if name in ("add_", "sub_", "mul_", "div_"):
        op = {"add_": _ast.Add(), "sub_": _ast.Sub(), "mul_": _ast.Mult(), "div_": _ast.Div()}[name]
        return I.inplace(a, op, args[0])
    if name == "norm":
        return norm(I, a, kw.get("dim", args[1] if len(args) > 1 else None))
    h = I.ext_hooks.get("method:" + name)
    if h is not None:
        return h(I, a, args, kw)
    raise I.err("array method %s" % name)


# ---------------------------------------------------------------- builtins
def b_len(I, v):
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_("TypeError", "len of a scalar")
        return I.num.dimval(v.dims[0])
    if isinstance(v, Opq):
        return I.g.fn("shape", (v.node, I.g.ZERO), isint=True)
    return len(v)


def b_range(I, args):
    vs = [I.num.py(I.num.node(a)) for a in args]
    if any(not isinstance(v, int) for v in vs):
        raise I.err("loop over a symbolic range")
    return range(*vs)


def b_minmax(I, hi, args, kw):
    vs = I.iterate(args[0]) if len(args) == 1 else list(args)
    if not vs:
        I.raise_("ValueError")
    r = vs[0]
    for v in vs[1:]:
        r = minmax(I, hi, r, v)
    return r


def b_int(I, v):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, Opq) and v.kind != "num":
        return I.g.fn("toint", (v.node,), isint=True)
    if isinstance(v, SymBool):
        return I.num.node(v)
    if isinstance(v, Arr):
        v = I.num.scalar(v)
    n = I.num.node(v)
    return I.num.py(n if n.isint else I.g.fn("trunc", (n,), isint=True))


def b_float(I, v):
    if isinstance(v, str):
        return float(v)
    if isinstance(v, Arr):
        return I.num.scalar(v)
    return v


def b_isinstance(I, v, t):
    if isinstance(t, tuple):
        r = [b_isinstance(I, v, x) for x in t]
        if any(x is True for x in r):
            return True
        return False
    if isinstance(t, Cls):
        return isinstance(v, Inst) and t in v.cls.mro()
    if isinstance(t, Ext):
        n = t.path
        last = n.split(".")[-1]
        if last in ("Tensor", "FloatTensor", "DoubleTensor"):
            return isinstance(v, Arr) and v.wrapper == "torch"
        if last == "ndarray":
            return isinstance(v, Arr) and v.wrapper == "numpy" and not v.sparse or isinstance(v, Opq) and v.kind == "array"
        if n == "builtins.int" or last == "Integral":
            return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Node) and v.isint
        if n == "builtins.float":
            return isinstance(v, (float, Fraction)) or isinstance(v, Node) and not v.isint
        if n == "builtins.bool":
            return isinstance(v, (bool, SymBool))
        if n == "builtins.str":
            return isinstance(v, str)
        if n in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set"):
            return isinstance(v, {"list": list, "tuple": tuple, "dict": dict, "set": set}[last])
        if isinstance(v, Opq):
            return SymBool(I.g.b_atom("isinstance:" + n, v.node))
        return False
    raise I.err("isinstance")


def builtin(I, n, args, kw):
    if n == "len":
        return b_len(I, args[0])
    if n == "range":
        return b_range(I, args)
    if n == "int":
        return b_int(I, args[0]) if args else 0
    if n == "float":
        return b_float(I, args[0]) if args else 0
    if n == "bool":
        return I.sb(I.truth_bdd(args[0]))
    if n == "str" or n == "repr":
        return args[0] if isinstance(args[0], str) else "<formatted>"
    if n == "list":
        return list(I.iterate(args[0])) if args else []
    if n == "tuple":
        return tuple(I.iterate(args[0])) if args else ()
    if n == "dict":
        return dict(*[a if isinstance(a, dict) else {I.key(k): v for k, v in I.iterate(a)} for a in args], **kw)
    if n in ("set", "frozenset"):
        return set(I.iterate(args[0])) if args else set()
    if n in ("max", "min"):
        return b_minmax(I, n == "max", args, kw)
    if n == "abs":
        return NP["abs"](I, args, {})
    if n == "sum":
        r = args[1] if len(args) > 1 else 0
        for x in I.iterate(args[0]):
            r = I.binop(_ADD, r, x)
        return r
    if n == "zip":
        return [tuple(t) for t in zip(*[I.iterate(a) for a in args])]
    if n == "enumerate":
        st = args[1] if len(args) > 1 else kw.get("start", 0)
        return [(k + st, x) for k, x in enumerate(I.iterate(args[0]))]
    if n == "reversed":
        return list(reversed(I.iterate(args[0])))
    if n == "sorted":
        v = I.iterate(args[0])
        return sorted(v, key=(lambda x: I.call(kw["key"], [x], {})) if kw.get("key") else None, reverse=bool(kw.get("reverse")))
    if n in ("print", "open"):
        return None if n == "print" else Opq(I.g.sym("file"), "file", (), "object")
    if n == "isinstance":
        return b_isinstance(I, *args)
    if n == "hasattr":
        return has_attr(I, args[0], args[1])
    if n == "getattr":
        if len(args) > 2 and not has_attr(I, args[0], args[1]):
            return args[2]
        return I.getattr(args[0], args[1])
    if n == "setattr":
        return I.setattr(*args)
    if n in ("any", "all"):
        r = int(n == "all")
        for x in (I.iterate(args[0]) if not isinstance(args[0], Arr) or args[0].ndim != 1 else [reduce_(I, n, args[0])]):
            b = I.truth_bdd(x)
            r = I.g.b_and(r, b) if n == "all" else I.g.b_or(r, b)
        return I.sb(r)
    if n == "map":
        return [I.call(args[0], list(t), {}) for t in zip(*[I.iterate(a) for a in args[1:]])]
    if n == "filter":
        return [x for x in I.iterate(args[1]) if I.truth(I.call(args[0], [x], {}) if args[0] is not None else x)]
    if n == "slice":
        return slice(*args)
    if n == "pow":
        return I.binop(_ast.Pow(), *args[:2])
    if n == "round":
        return I.elementwise(lambda x: I.g.fn("opaque:round", (x,), isint=True), args[0])
    if n == "type":
        v = args[0]
        return v.cls if isinstance(v, Inst) else Ext("builtins.type")
    if n == "id":
        return id(args[0])
    if n == "callable":
        return isinstance(args[0], (Func, Cls, Bound, Method, Ext))
    if n == "super":
        return P.Super(*args)
    if n == "next":
        return I.iterate(args[0])[0]
    if n == "iter":
        return args[0]
    if n == "vars":
        return args[0].attrs
    if n == "divmod":
        return (I.binop(_ast.FloorDiv(), *args), I.binop(_ast.Mod(), *args))
    if n == "__cast__":
        t, v = args
        if isinstance(v, (PtrVal, Null)):
            return v
        if "*" in t:
            if isinstance(v, Arr):
                return PtrVal(v)
            raise I.err("cast to a pointer")
        if t in ("int", "long", "short", "unsigned int", "uint32_t"):
            return b_int(I, v) if not (isinstance(v, Opq)) else I.g.fn("toint", (v.node,), isint=True)
        if t == "bool" or t == "bint":
            return I.sb(I.truth_bdd(v))
        return v
    if n == "__addr__":
        v = args[0]
        if isinstance(v, Arr):
            return PtrVal(v)
        return v
    if n in P.EXCEPTIONS:
        return ExcVal(n, tuple(args))
    if n == "object":
        return Inst(None)
    raise I.err("builtin " + n)


def has_attr(I, o, name):
    if isinstance(o, Inst):
        if name in o.attrs:
            return True
        if o.cls is not None and o.cls.find(name)[1] is not None:
            return True
        if o.havoc is not None:
            return o.havoc(name) is not NotImplemented
        return False
    if isinstance(o, Opq):
        return SymBool(I.g.b_atom("hasattr:" + name, o.node))
    if isinstance(o, Arr):
        return name in ("shape", "dtype", "T", "ndim", "size") or name in ("detach", "numpy") and o.wrapper == "torch"
    raise I.err("hasattr of %r" % (o,))


# ---------------------------------------------------------------- torch
def t_tensor(I, args, kw):
    if isinstance(args[0], Arr) and args[0].wrapper == "torch" and getattr(I, "grad_cut", None) is not None:
        r = I.grad_cut(I, args[0], args, kw, "tensor")
        if r is not NotImplemented:
            return r
    return mark(to_array(I, args[0], kw.get("dtype"), True), "torch")


def t_share(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        r = I.num.view(v, v.dims, list(v.amap))
        r.wrapper = "torch"
        return r
    return mark(to_array(I, v, kw.get("dtype"), False), "torch")


def dim_kw(kw):
    kw = dict(kw)
    if "dim" in kw:
        kw["axis"] = kw.pop("dim")
    if "keepdim" in kw:
        kw["keepdims"] = kw.pop("keepdim")
    if "out" in kw and kw["out"] is None:
        kw.pop("out")
    return kw


def t_cross(I, args, kw):
    a, b, d = bind(args, kw, "input", "other", "dim")
    num = I.num
    if d is None:
        # the first dimension of size 3
        a_, b_ = num.arr(a), num.arr(b)
        for k, x in enumerate(a_.dims):
            v = num.dimval(x)
            if isinstance(v, int):
                if v == 3:
                    d = k
                    break
            elif I.decide(I.num.eq(num.node(v), I.g.const(3))):
                d = k
                break
        if d is None:
            I.raise_("RuntimeError", "no dimension of size 3")
        if d != a_.ndim - 1:
            I.events.append(("cross-dim", d, I.site()))
            return mark(num.param("wrongcross", [num.dimval(x) for x in a_.dims], owner="local"), "torch")
    r = cross(I, a, b, d)
    return mark(r, "torch")


def t_sparse(I, args, kw):
    ij, v, s = bind(args, kw, "indices", "values", "size")
    num = I.num
    rows = I.iterate(ij) if not isinstance(ij, Arr) else [num.fix(ij, 0, (0,)), num.fix(ij, 0, (1,))]
    k = I.g.sym("gen:nnz", True)        # the entries of a sparse matrix listed by tocoo() make up that matrix
    e = [num.node(num.at(num.arr(x), ((k,),))) if len(num.arr(x).dims[0]) == 1 else None for x in (rows[0], rows[1], v)]
    if all(x is not None and x.op == "fn" and x.val == "coo:" + w and x.args[0] is e[0].args[0] and x.args[1] is k for x, w in zip(e, ("row", "col", "data"))):
        src = I.coo_terms[e[0].args[0].nid]
        want = src.dims if s is None else [num.dim(w) for w in (s if isinstance(s, tuple) else I.iterate(s))]
        if all(num.same_dim(d, w) for d, w in zip(src.dims, want)):
            r = num.view(src, src.dims, list(src.amap))
            r.sparse = True
            return mark(r, "torch")
    return mark(coo(I, (v, (rows[0], rows[1])), s), "torch")


def np_t(name, tr=None):
    def h(I, args, kw):
        return mark(NP[name](I, list(args), dim_kw(kw)), "torch")
    return h


TORCH = {"tensor": t_tensor, "as_tensor": t_share, "from_numpy": t_share, "LongTensor": lambda I, a, k: mark(to_array(I, a[0], Ext("numpy.int64")), "torch"),
         "cross": t_cross, "linalg.cross": lambda I, a, k: t_cross(I, a, dict({"dim": -1}, **k)), "sparse.DoubleTensor": t_sparse, "sparse_coo_tensor": t_sparse,
         "Size": lambda I, a, k: tuple(I.iterate(a[0])), "relu": lambda I, a, k: mark(minmax(I, True, a[0], 0), "torch"),
         "cat": lambda I, a, k: mark(concatenate(I, *bind(a, dim_kw(k), "tensors", ("axis", 0))), "torch"),
         "clamp": lambda I, a, k: mark(clip(I, *bind(a, k, "input", "min", "max")), "torch"),
         "is_tensor": lambda I, a, k: isinstance(a[0], Arr) and a[0].wrapper == "torch",
         "DoubleTensor": lambda I, a, k: mark(to_array(I, a[0]), "torch"), "FloatTensor": lambda I, a, k: mark(to_array(I, a[0]), "torch")}
for _n in ("zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "stack", "sum", "mean", "sqrt", "abs", "matmul", "arange", "eye", "full", "where", "maximum", "minimum", "norm", "mm", "max", "min", "einsum", "square", "any", "all", "std"):
    TORCH[_n] = np_t({"norm": "linalg.norm", "mm": "matmul"}.get(_n, _n))


def external(I, path, args, kw):
    top, _, rest = path.partition(".")
    if top == "builtins":
        return builtin(I, rest, args, kw)
    try:
        if top in ("numpy", "cnumpy"):
            f = NP.get(rest)
            if f is not None:
                return f(I, list(args), kw)
        if path.startswith("scipy.sparse."):
            f = SP.get(path[len("scipy.sparse."):])
            if f is not None:
                return f(I, list(args), kw)
        if top == "torch":
            f = TORCH.get(rest)
            if f is not None:
                return f(I, list(args), kw)
    except ShapeMismatch as e:
        I.raise_("ValueError", str(e))
    if top == "native":
        return I.native(I, rest, list(args))
    if path == "copy.copy":
        return copy_copy(I, args[0])
    if path == "copy.deepcopy":
        return deepcopy(I, args[0])
    if path in ("warnings.warn", "logging.info"):
        return None
    if path.startswith(("typing.", "dataclasses.field")):
        return Ext(path)
    if path == "math.sqrt":
        return I.elementwise(I.g.sqrt, args[0])
    if top in ("os", "pathlib", "sys", "logging", "time", "datetime"):
        return "<path>" if top == "os" else opq_obj(I, path, args, kw)
    if top == "math":
        return I.elementwise(lambda *x: I.g.fn("opaque:" + rest, x), *args)
    if path.startswith("scipy.spatial.transform") or path.startswith("scipy."):
        return opq_obj(I, path, args, kw)
    raise I.err("call of %s is not modelled" % path)


def opq_obj(I, path, args, kw):
    return Opq(I.g.fn("opq:" + path, [I.term(a) for a in args]), path, tuple(args), "object")
