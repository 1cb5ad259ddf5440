"""Common parts of the Python checks: scenario building blocks, the native-call model, comparisons."""
from gvn import Graph, AnalysisError, show
from pynum import Arr, Opq, SymBool, Buf
from pyinterp import Program, Inst, PtrVal, NULL, Null, explore, PyRaise, Cls, Mod
import pymodels

IN = ("faces", "faces_uv", "depths", "uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded", "texture", "background_image", "background_color")
GRAD = ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")
FLAGS = ("height", "width", "nb_triangles", "nb_vertices", "nb_uv", "nb_colors", "texture_height", "texture_width", "backface_culling", "clockwise",
         "strict_edge", "perspective_correct", "integer_pixel_centers")


class NativeCall:
    def __init__(self, I, fname, sc, args):
        self.fname, self.sc, self.args = fname, dict(sc.attrs), list(args)
        self.site = I.site()
        self.pc = I.pc
        self.back = fname == "renderScene_B"
        names = ("image", "z_buffer", "image_b", "sigma", "antialiase_error", "obs", "err_buffer", "err_buffer_b") if self.back else \
                ("image", "z_buffer", "sigma", "antialiase_error", "obs", "err_buffer")
        if len(args) != len(names):
            raise I.err("%s called with %d arguments" % (fname, len(args)))
        self.p = dict(zip(names, args))
        self.snap = {}      # input contents at the time of the call (reader, array)
        for k, v in list(self.sc.items()) + list(self.p.items()):
            if isinstance(v, PtrVal) and isinstance(v.arr, Arr):
                self.snap[k] = Arr(v.arr.buf, v.arr.dims, list(v.arr.amap), v.arr.dtype)
                c = I.num.reader(v.arr)
                self.snap[k] = I.num.array("snap:" + k, v.arr.dims, c, v.arr.dtype)

    def arr(self, k):
        v = self.sc.get(k, self.p.get(k))
        return v.arr if isinstance(v, PtrVal) else None

    def value(self, k):
        return self.sc.get(k, self.p.get(k))


def native_model(I, fname, args):
    """the compiled renderer as an uninterpreted function of its inputs (its own behaviour is the subject of the native
    properties): the forward pass fills image, depth (and error); the backward pass adds to the gradient arrays and
    overwrites image, error buffer and the upstream gradients (it un-blends the silhouettes in place)"""
    g, num = I.g, I.num
    sc = args[0]
    if not isinstance(sc, Inst):
        raise I.err("native call without a scene")
    c = NativeCall(I, fname, sc, args[1:])
    I.events.append(("native", c))

    def t(v):
        if isinstance(v, PtrVal):
            a = v.arr
            return I.term(a) if not isinstance(a, Opq) else a.node
        if isinstance(v, Null) or v is None:
            return g.sym("NULL")
        return I.term(v)
    err = c.p["antialiase_error"]
    err = I.truth(err) if not isinstance(err, (bool, int)) else bool(err)
    key = [t(c.sc.get(k)) for k in IN] + [t(c.sc.get(k)) for k in FLAGS] + [t(c.p["sigma"]), g.ONE if err else g.ZERO]
    if err:
        key.append(t(c.p["obs"]))
    if c.back:
        key += [t(c.p["image"]), t(c.p["z_buffer"])]
        key += [t(c.p["err_buffer"]), t(c.p["err_buffer_b"])] if err else [t(c.p["image_b"])]
    kn = g.fn("call:" + fname, key)
    c.key = kn

    def put(k, label, accumulate):
        v = c.value(k)
        if not isinstance(v, PtrVal) or isinstance(v.arr, Opq):
            if isinstance(v, PtrVal):
                I.events.append(("opaque-write", v.arr, I.site()))
            return
        a = v.arr
        old = num.reader(a)

        def content(idx):
            x = g.fn(label, [kn] + [num.node(i) for t_ in idx for i in t_])
            return g.add(old(idx), x) if accumulate else x
        val = num.array(label, a.dims, num.memo(content), a.dtype)
        num.write(a, val, I.site(), kind="native")
    if not c.back:
        put("image", "nat:image", False)
        put("z_buffer", "nat:z", False)
        if err:
            put("err_buffer", "nat:err", False)
    else:
        for k in GRAD:
            put(k, "NB:" + k[:-2], True)
        if err:
            put("err_buffer", "nat:errB", False)
            put("err_buffer_b", "nat:err_bB", False)
        else:
            put("image", "nat:imageB", False)
            put("image_b", "nat:image_bB", False)
    return None


class PyEnv:
    def __init__(self, c):
        self.c = c
        self.prog = Program(c.repo)
        self.g = Graph()

    def explore(self, scen, limit=200, opaque_sparse=True, setup=None):
        def su(I):
            I.num.opaque_sparse = opaque_sparse
            if setup is not None:
                setup(I)
        outs = explore(self.prog, self.g, scen, limit, native_model, su)
        c = self.c
        c.count("paths explored", len(outs))
        fs = set()
        for o in outs:
            for e in o.I.events:
                if e[0] == "enter":
                    fs.add(e[1])
            c.count("statements interpreted", o.I.steps)
        seen = c.analysed.setdefault("Python functions analysed", [])
        for f in sorted(fs):
            if f not in seen:
                seen.append(f)
        return outs


def rotation_model(I):
    """scipy's Rotation.from_euler(axes, angles).as_quat(): an uninterpreted function of the angles, four numbers per triple"""
    g, num = I.g, I.num

    def from_euler(I, args, kw):
        axes, a = args[0], num.arr(args[1])
        o = Opq(g.fn("from_euler", ()), "rotation", ("from_euler", axes, a), "rotation")
        return o

    def as_quat(I, o, args, kw):
        axes, a = o.args[1], o.args[2]
        r = num.reader(a)
        q = num.array("quaternion", a.dims[:-1] + [(4,)],
                      num.memo(lambda i: g.fn("quat:%s:%s" % (axes, show(num.node(i[-1][0]))), [r(tuple(i[:-1]) + ((k,),)) for k in range(3)])))
        return q
    I.ext_hooks["scipy.spatial.transform.Rotation.from_euler"] = from_euler
    I.ext_hooks["method:as_quat"] = as_quat


class S:
    """scenario helper bound to one interpreter"""

    def __init__(self, I):
        self.I, self.g, self.num = I, I.g, I.num
        g = self.g
        self.F, self.V, self.C, self.h, self.w = [g.sym(x, True) for x in ("F", "V", "C", "h", "w")]
        for x in (self.F, self.V, self.C, self.h, self.w):
            I.assume(g.b_not(g.b_lt0(g.sub(x, g.ONE), True)))

    def cls(self, name, mod="deodr.differentiable_renderer"):
        m = self.I.import_module(mod)
        v = self.I.get_global(m, name)
        if v is None:
            raise AnalysisError("%s.%s not found" % (mod, name))
        return v

    def new(self, name, *args, mod="deodr.differentiable_renderer", **kw):
        return self.I.call(self.cls(name, mod), list(args), kw)

    def do(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def get(self, o, *names):
        for n in names:
            o = self.I.getattr(o, n)
        return o

    def param(self, label, dims, dtype="f8"):
        return self.num.param(label, dims, dtype)

    def flag(self, name):
        return SymBool(self.g.b_atom("in:" + name, self.g.ZERO))

    def camera(self, tag="", dist=False, name="Camera", mod="deodr.differentiable_renderer"):
        kw = {"distortion": self.param("dist" + tag, [5]) if dist else None}
        if name == "Camera":
            kw["checks"] = False
        cam = self.new(name, self.param("ext" + tag, [3, 4]), self.param("intr" + tag, [3, 3]), self.h, self.w, mod=mod, **kw)
        return cam

    def mesh(self, tag="", textured=False, C=None, clockwise=None):
        kw = {"clockwise": self.flag("clockwise" + tag) if clockwise is None else clockwise}
        C = self.C if C is None else C
        if textured:
            g = self.g
            th, tw, U = g.sym("th", True), g.sym("tw", True), g.sym("U", True)
            for x in (th, tw, U):
                self.I.assume(g.b_not(g.b_lt0(g.sub(x, g.ONE), True)))
            kw.update(texture=self.param("texture" + tag, [th, tw, C]), uv=self.param("uv" + tag, [U, 2]), faces_uv=self.param("faces_uv" + tag, [self.F, 3], "u4"))
        else:
            kw["colors"] = self.param("vcol" + tag, [self.V, C])
        return self.new("ColoredTriMesh", self.param("faces" + tag, [self.F, 3], "u4"), self.param("vertices" + tag, [self.V, 3]), **kw)

    def natives(self):
        return [e[1] for e in self.I.events if e[0] == "native"]

    # functionals
    def seed(self, *labels, prefix="elem:"):
        g = self.g
        names = {prefix + l for l in labels}

        def f(n):
            if n.op == "fn" and n.val in names:
                return g.fn("H:" + n.val, n.args)
            return None
        return f

    def H(self, label, idx, prefix="elem:"):
        return self.g.fn("H:" + prefix + label, [self.num.node(x) for t in idx for x in t])

    def dual(self, grad, label):
        """sum of grad * direction of the parameter array `label`"""
        g, num = self.g, self.num
        if grad is None:
            return None
        a = num.arr(grad)
        r = num.reader(a)
        return num.total(a.dims, lambda i: g.mul(r(i), self.H(label, i)))

    def pull(self, call, seed, key):
        """sum over the renderer's differentiable inputs of its gradient times their derivative in the seeded direction"""
        g, num = self.g, self.num
        r = g.ZERO
        cache = {}
        for k in ("ij", "colors", "shade", "uv", "texture"):
            a = call.snap.get(k)
            if a is None:
                continue
            rd = num.reader(a)

            def term(i, k=k, rd=rd):
                d = g.tangent(rd(i), seed, cache)
                if d is g.ZERO:
                    return g.ZERO
                return g.mul(g.fn("NB:" + k, [key] + [num.node(x) for t in i for x in t]), d)
            r = g.add(r, num.total(a.dims, term))
        return r


def arrays_equal(I, a, b):
    """None when two values (numbers, arrays, containers) are equal for every index, else a reason"""
    g, num = I.g, I.num
    if a is b:
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return "lengths differ"
        for k, (x, y) in enumerate(zip(a, b)):
            r = arrays_equal(I, x, y)
            if r:
                return "item %d: %s" % (k, r)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "keys differ"
        for k in a:
            r = arrays_equal(I, a[k], b[k])
            if r:
                return "%s: %s" % (k, r)
        return None
    if isinstance(a, Arr) or isinstance(b, Arr):
        x, y = num.arr(a) if not isinstance(a, Arr) else a, num.arr(b) if not isinstance(b, Arr) else b
        if x.ndim != y.ndim:
            return "ranks differ"
        for p, q in zip(x.dims, y.dims):
            if not num.same_dim(p, q):
                return "shapes differ"
        # concrete dimensions are enumerated, symbolic ones get a generic index
        import itertools
        axes = []
        for k, d in enumerate(x.dims):
            per = []
            for j, t in enumerate(d):
                per.append(list(range(t)) if isinstance(t, int) and t <= 16 else [g.sym("gen:%d:%d" % (k, j), True)])
            axes.append([tuple(c) for c in itertools.product(*per)])
        for idx in itertools.product(*axes):
            jdx = tuple(i if len(i) == len(d) else num.reindex(i, x.dims[k], d) for k, (i, d) in enumerate(zip(idx, y.dims)))
            u, v = num.at(x, idx), num.at(y, jdx)
            if u is not v and not g.equal(g.sel(I.pc, u, g.ZERO), g.sel(I.pc, v, g.ZERO)):
                return "element %s: %s instead of %s" % (list(idx), show(u)[:160], show(v)[:160])
        return None
    if isinstance(a, Inst) and isinstance(b, Inst):
        return None if a.cls is b.cls else "objects of different classes"
    if isinstance(a, Opq) or isinstance(b, Opq):
        return None if isinstance(a, Opq) and isinstance(b, Opq) and a.node is b.node else "opaque values differ: %r %r" % (a, b)
    if a is None or b is None or isinstance(a, (str, Mod, Cls)) or isinstance(b, str):
        return None if a == b else "%r instead of %r" % (a, b)
    try:
        u, v = num.node(a), num.node(b)
    except AnalysisError:
        return None if a == b else "%r instead of %r" % (a, b)
    if u is v or g.equal(g.sel(I.pc, u, g.ZERO), g.sel(I.pc, v, g.ZERO)):
        return None
    return "%s instead of %s" % (show(u)[:160], show(v)[:160])


def owner_writes(I):
    """(label, kind, site) of every write to memory the caller owns"""
    out = []
    return out
