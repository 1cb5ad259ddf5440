"""Camera model and mesh tables."""
import itertools
from gvn import AnalysisError, show
from pynum import Arr, Opq, SymBool
from pyenv import PyEnv, S, arrays_equal
from checks_python import run, same, eqval
from checks_python5 import tensor

REND = "deodr.differentiable_renderer"


def rotation(s, tag="R"):
    """any rotation matrix: rational function of a quaternion of any length; 'flat' 3x3 list of nodes"""
    g = s.g
    a, b, c, d = [g.sym("%s:%s" % (tag, k)) for k in "wxyz"]
    m = g.mul
    n = g.recip(g.add(g.add(m(a, a), m(b, b)), g.add(m(c, c), m(d, d))))

    def sq(x, y, z, w):
        return m(n, g.sub(g.add(m(x, x), m(y, y)), g.add(m(z, z), m(w, w))))

    def tw(p, q, r, t, sign):
        v = m(r, t)
        return m(n, m(g.const(2), g.add(m(p, q), v) if sign > 0 else g.sub(m(p, q), v)))
    return [[sq(a, b, c, d), tw(b, c, a, d, -1), tw(b, d, a, c, 1)],
            [tw(b, c, a, d, 1), sq(a, c, b, d), tw(c, d, a, b, -1)],
            [tw(b, d, a, c, -1), tw(c, d, a, b, 1), sq(a, d, b, c)]]


def matrix(s, label, rows):
    def content(i):
        r, k = [x[0] for x in i]
        if isinstance(r, int) and isinstance(k, int):
            return s.num.node(rows[r][k])
        g = s.g
        v = None
        for a, b in itertools.product(range(len(rows)), range(len(rows[0]))):
            if (isinstance(r, int) and a != r) or (isinstance(k, int) and b != k):
                continue
            e = s.num.node(rows[a][b])
            for x, y in ((r, a), (k, b)):
                if not isinstance(x, int) and v is not None:
                    e = g.sel(g.b_eq0(g.sub(s.num.node(x), g.const(y))), e, v)
            v = e
        return v
    return s.num.array(label, [len(rows), len(rows[0])], content)


def project(g, ext, intr, dist, P):
    """pixel coordinates and depth of the point P, written from the camera model (OpenCV's distortion k1 k2 p1 p2 k3)"""
    m, a = g.mul, g.add

    def dot(r, v):
        t = g.ZERO
        for x, y in zip(r, v):
            t = a(t, m(x, y))
        return t
    c = [a(dot(ext[k][:3], P), ext[k][3]) for k in range(3)]
    x, y = g.div(c[0], c[2]), g.div(c[1], c[2])
    if dist is not None:
        k1, k2, p1, p2, k3 = dist
        r2 = a(m(x, x), m(y, y))
        rad = a(g.ONE, m(r2, a(k1, m(r2, a(k2, m(r2, k3))))))
        two = g.const(2)
        xd = a(m(x, rad), a(m(two, m(p1, m(x, y))), m(p2, a(r2, m(two, m(x, x))))))
        yd = a(m(y, rad), a(m(p1, a(r2, m(two, m(y, y)))), m(two, m(p2, m(x, y)))))
        x, y = xd, yd
    return [a(a(m(intr[k][0], x), m(intr[k][1], y)), intr[k][2]) for k in range(2)], c[2]


def k01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("the projection of a generic point by a camera with symbolic matrices equals the camera model (rotation and translation, division by depth, "
           "OpenCV distortion, intrinsic matrix), and its depth the camera-space z, in the numpy and the PyTorch camera")
    c.rule("for a symbolic rotation: get_center() is the point with camera coordinates 0, camera_to_world_mtx_4x4() inverts the extrinsic matrix")
    c.rule("PerspectiveCamera(width, height, fov, center, rot): center, rotation, horizontal field of view, image size and principal point are the given ones, pixels are square")
    c.rule("default_camera: the bounding box of the rotated mesh is centred on the optical axis at the smallest distance from which it fits in both directions")
    ob = lambda rule, where, why: c.ob(rule, where, why is None or why is True, why if isinstance(why, str) else "" if why in (None, True) else "differs", key="%s:%s" % (rule, where))

    def elems(s, a):
        return [[s.num.at(a, ((r,), (k,))) for k in range(s.num.dimval(a.dims[1]))] for r in range(s.num.dimval(a.dims[0]))]

    def proj(dist, cls, mod, store, depth):
        def f(I):
            s = S(I)
            num = I.num
            N = g.sym("N", True)
            I.assume(g.b_not(g.b_lt0(g.sub(N, g.ONE), True)))
            cam = s.camera(dist=dist, name=cls, mod=mod)
            P = (s.param if cls == "Camera" else lambda *a: tensor(s, *a))("P", [N, 3])
            kw = {}
            if store:
                kw["store_backward"] = {}
            if not depth:
                kw["return_depths"] = False
            r = s.do(cam, "project_points", P, **kw)
            p2, dep = r if depth else (r, None)
            i = g.sym("i", True)
            ext, intr = elems(s, s.param("ext", [3, 4])), elems(s, s.param("intr", [3, 3]))
            dd = [num.at(s.param("dist", [5]), ((k,),)) for k in range(5)] if dist else None
            want, z = project(g, ext, intr, dd, [num.at(P, ((i,), (k,))) for k in range(3)])
            p2 = num.arr(p2)
            bad = [k for k in range(2) if not same(I, num.at(p2, ((i,), (k,))), want[k])]
            if dep is not None and not same(I, num.at(num.arr(dep), ((i,),)), z):
                bad.append("depth")
            return bad
        return f
    for (cls, mod), dist, store in itertools.product((("Camera", REND), ("CameraPytorch", "deodr.pytorch.differentiable_renderer_pytorch")), (False, True), (False, True)):
        if cls != "Camera" and store:
            continue
        for depth in (True, False):
            if cls != "Camera" and not depth:
                continue
            name = "%s.project_points %s distortion%s%s" % (cls, "with" if dist else "without", ", stored" if store else "", "" if depth else ", no depths")
            for o in run(c, env, name, proj(dist, cls, mod, store, depth)):
                ob("camera model", name, None if not o.result else "coordinates %s differ from the camera model" % o.result)

    def inverse(I):
        s = S(I)
        num = I.num
        R = rotation(s)
        t = [g.sym("t%d" % k) for k in range(3)]
        ext = matrix(s, "extrinsic", [R[k] + [t[k]] for k in range(3)])
        cam = s.new("Camera", ext, s.param("intr", [3, 3]), s.h, s.w, checks=False)
        out = []
        cen = num.arr(s.do(cam, "get_center"))
        pc = num.arr(s.do(cam, "world_to_camera", matrix(s, "centre", [[num.at(cen, ((k,),)) for k in range(3)]])))
        out.append(("get_center", all(same(I, num.at(pc, ((0,), (k,))), g.ZERO) for k in range(3))))
        M = num.arr(s.do(cam, "camera_to_world_mtx_4x4"))
        m = elems(s, M)
        full = [R[k] + [t[k]] for k in range(3)] + [[g.ZERO, g.ZERO, g.ZERO, g.ONE]]
        ok = len(m) == 4
        for r in range(4):
            for k in range(4):
                v = g.ZERO
                for j in range(4):
                    v = g.add(v, g.mul(full[r][j], m[j][k]))
                ok = ok and same(I, v, g.ONE if r == k else g.ZERO)
        out.append(("camera_to_world_mtx_4x4", ok))
        return out
    for o in run(c, env, "camera inverse", inverse):
        for n, ok in o.result:
            ob("inverse of the extrinsic matrix", "Camera." + n, True if ok else "does not invert the extrinsic matrix")

    def atan_model(I):
        def h(I, args, kw):
            def f(x):
                for u in I.tans:
                    if g.equal(x, g.fn("opaque:tan", (u,))):
                        return u
                return g.fn("opaque:arctan", (x,))
            return I.elementwise(f, args[0], dtype="f8")
        I.tans = []

        def tan(I, args, kw):
            def f(x):
                I.tans.append(x)
                return g.fn("opaque:tan", (x,))
            return I.elementwise(f, args[0], dtype="f8")
        for m in ("numpy.", "math."):
            I.ext_hooks[m + "arctan"] = I.ext_hooks[m + "atan"] = h
            I.ext_hooks[m + "tan"] = tan

    def persp(given, dist):
        def f(I):
            s = S(I)
            num = I.num
            fov = g.sym("fov")
            cen = s.param("center", [3])
            R = rotation(s)
            rot = matrix(s, "rot", R)
            args = [s.w, s.h, fov, cen] + ([rot] if given else [])
            kw = {"distortion": s.param("dist", [5])} if dist else {}
            cam = s.new("PerspectiveCamera", *args, **kw)
            if not given:
                R = [[g.ONE if a == b else g.ZERO for b in range(3)] for a in range(3)]
            out = []
            pc = num.arr(s.do(cam, "world_to_camera", matrix(s, "centre", [[num.at(cen, ((k,),)) for k in range(3)]])))
            out.append(("camera centre", all(same(I, num.at(pc, ((0,), (k,))), g.ZERO) for k in range(3))))
            ext, intr = elems(s, num.arr(s.get(cam, "extrinsic"))), elems(s, num.arr(s.get(cam, "intrinsic")))
            out.append(("rotation", all(same(I, ext[a][b], R[a][b]) for a in range(3) for b in range(3))))
            out.append(("principal point", same(I, intr[0][2], g.div(s.w, g.const(2))) and same(I, intr[1][2], g.div(s.h, g.const(2)))))
            out.append(("square pixels", same(I, intr[0][0], intr[1][1]) and all(same(I, intr[a][b], g.const(v)) for a, b, v in ((0, 1, 0), (1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 2, 1)))))
            half = g.div(g.mul(fov, g.sym("pi")), g.const(360))
            out.append(("field of view", same(I, g.mul(intr[0][0], g.fn("opaque:tan", (half,))), g.div(s.w, g.const(2)))))
            out.append(("xfov", same(I, num.node(s.get(cam, "xfov")), fov)))
            out.append(("image size", same(I, num.node(s.get(cam, "width")), s.w) and same(I, num.node(s.get(cam, "height")), s.h)))
            d = s.get(cam, "distortion")
            out.append(("distortion", (d is None) if not dist else False if d is None else arrays_equal(I, d, s.param("dist", [5])) is None))
            return out
        return f
    for given, dist in itertools.product((True, False), (False, True)):
        name = "PerspectiveCamera%s%s" % ("" if given else " without rotation", " with distortion" if dist else "")
        for o in run(c, env, name, persp(given, dist), setup=atan_model):
            for n, ok in o.result:
                ob("perspective camera: " + n, name, True if ok else "%s of the camera is not the given one" % n)

    def default(I):
        s = S(I)
        num = I.num
        fov = g.sym("fov")
        R = rotation(s)
        rot = matrix(s, "rot", R)
        V = s.param("vertices", [s.V, 3])
        cam = I.call(s.cls("default_camera"), [s.w, s.h, fov, V, rot], {})
        rv = num.reader(V)
        CV = num.array("rotated", [s.V, 3], lambda i: _sum(g, [g.mul(R[i[1][0]][k], rv((i[0], (k,)))) for k in range(3)]))
        lo, hi = num.reduce(CV, 0, "min"), num.reduce(CV, 0, "max")
        lo, hi = [num.at(lo, ((k,),)) for k in range(3)], [num.at(hi, ((k,),)) for k in range(3)]
        half = g.const(2)
        mid = [g.div(g.add(a, b), half) for a, b in zip(lo, hi)]
        size = [g.div(g.sub(b, a), half) for a, b in zip(lo, hi)]      # half extents
        center = [_sum(g, [g.mul(R[k][j], mid[k]) for k in range(3)]) for j in range(3)]
        X = matrix(s, "centre", [center])
        pc = num.arr(s.do(cam, "world_to_camera", X))
        tan = g.fn("opaque:tan", (g.div(g.mul(fov, g.sym("pi")), g.const(360)),))
        dx = g.add(g.div(size[0], tan), size[2])
        dy = g.add(g.div(g.mul(size[1], g.div(s.w, s.h)), tan), size[2])
        want = [g.ZERO, g.ZERO, num.amax(dx, dy)]
        names = ("x", "y", "distance")
        return [names[k] for k in range(3) if not same(I, num.at(pc, ((0,), (k,))), want[k])]
    for o in run(c, env, "default_camera", default, setup=atan_model):
        ob("default camera", "default_camera", None if not o.result else "the box centre is not at the expected place in camera coordinates: %s" % o.result)
    return c.finish(EXPL["K01"], [("paths explored", 12), ("Python functions analysed", 8)])


def _sum(g, xs):
    r = g.ZERO
    for x in xs:
        r = g.add(r, x)
    return r


EXPL = {
    "K01": "Abstract interpretation of the cameras with symbolic points, matrices, distortion and field of view; rotations are rational functions of a "
           "quaternion, so orthogonality holds by construction. The results are compared with an independently written camera model.",
}
