"""Properties of the Python layer, decided on the abstract runs of pyinterp."""
import ast
import glob
import itertools
import os
from gvn import AnalysisError, show
from pynum import Arr, Opq, SymBool
from pyinterp import Inst, PtrVal, Null, PyRaise
from facts import Facts
from pyenv import PyEnv, S, arrays_equal, native_model

REND = "deodr/differentiable_renderer.py"


def add(g, *xs):
    r = g.ZERO
    for x in xs:
        if x is not None:
            r = g.add(r, x)
    return r


def under(I, n):
    return I.g.sel(I.pc, n, I.g.ZERO)


def same(I, a, b):
    return a is b or I.g.equal(a, b) or I.g.equal(under(I, a), under(I, b))


def raised(o):
    return None if o.raised is None else str(o.raised)


def pathname(o):
    return ",".join("%s=%s" % (s[2] if isinstance(s, tuple) and len(s) > 2 else s, v) for b, v, s in o.I.taken) or "straight"


BROKEN = ("KeyError", "AttributeError", "NameError", "UnboundLocalError", "TypeError", "IndexError", "ZeroDivisionError", "ShapeMismatch")


def run(c, env, name, scen, **kw):
    """explore one scenario; returns the paths that end normally.  A path ending in a refusal (assertion or raise of the
    repository: ill-formed input) is not judged; a path ending in a broken operation, or a scenario without a normal path, is."""
    outs = env.explore(scen, **kw)
    good = []
    for o in outs:
        if o.raised is None:
            good.append(o)
        elif any(str(o.raised).startswith(b) for b in BROKEN):
            c.ob("entry point completes", name, False, "raises %s on path [%s]" % (o.raised, pathname(o)), key="raise:%s" % name)
        else:
            c.count("paths ending in a refusal", 1)
    if not good:
        c.ob("entry point completes", name, False, "no path ends normally: %s" % "; ".join(sorted({str(o.raised) for o in outs})[:3]), key="raise:%s" % name)
    return good


# ---------------------------------------------------------------- G06

def g06(c):
    env = PyEnv(c)
    g = env.g
    c.rule("for symbolic camera matrices, points and upstream gradients: sum over image coordinates and depths of upstream * d(forward) "
           "equals the sum over points of the returned gradient * direction")

    def scen(dist, withdepth, cls):
        def f(I):
            s = S(I)
            num = I.num
            N = g.sym("N", True)
            cam = s.camera(dist=dist)
            P = s.param("P", [N, 3])
            d = {}
            p2, dep = s.do(cam, "project_points", P, store_backward=d)
            B = s.param("B", [N, 2])
            DB = s.param("DB", [N])
            kw = {"depths_b": DB} if withdepth else {}
            pb = s.do(cam, "project_points_backward", B, d, **kw)
            rp, rb, rd, rdb = num.reader(num.arr(p2)), num.reader(B), num.reader(num.arr(dep)), num.reader(DB)
            L = num.total([num.dim(N), (2,)], lambda i: g.mul(rp(i), rb(i)))
            if withdepth:
                L = g.add(L, num.total([num.dim(N)], lambda i: g.mul(rd(i), rdb(i))))
            dL = g.tangent(L, s.seed("P"), {})
            R = s.dual(pb, "P")
            return same(I, dL, R)
        return f
    for dist, wd in itertools.product((False, True), (False, True)):
        name = "Camera.project_points_backward %s distortion, %s depth gradient" % ("with" if dist else "without", "with" if wd else "without")
        for o in run(c, env, name, scen(dist, wd, "Camera")):
            c.ob("adjoint of the projection", name, o.result, "" if o.result else "returned gradient is not the transposed Jacobian", key="adjoint:%s" % name)
    return c.finish(EXPL["G06"], [("paths explored", 4), ("statements interpreted", 20)])


# ---------------------------------------------------------------- G07

def scene3d(s, mesh, light=True, bg="color", **kw):
    sc = s.new("Scene3D", **kw)
    s.do(sc, "set_mesh", mesh)
    g = s.g
    s.do(sc, "set_light", s.param("ld", [3]) if light else None, g.sym("la"))
    if bg == "color":
        s.do(sc, "set_background_color", s.param("bgc", [s.C]))
    elif bg == "image":
        s.do(sc, "set_background_image", s.param("bgi", [s.h, s.w, s.C]))
    return sc


def seed_all(s, labels, scalars=()):
    base = s.seed(*labels)
    g = s.g

    def f(n):
        if n.op == "sym" and n.val in scalars:
            return g.sym("H:" + n.val)
        return base(n)
    return f


def g07(c):
    env = PyEnv(c)
    g = env.g
    g.ties = False
    c.rule("with the compiled renderer as an unknown function whose gradients are given, the gradients returned for vertices, colours, texture "
           "and lights contracted with arbitrary directions equal the renderer's gradients contracted with the derivative of its inputs")

    def scen(light, textured, mode, dist):
        def f(I):
            s = S(I)
            cam = s.camera(dist=dist)
            mesh = s.mesh(textured=textured)
            sc = scene3d(s, mesh, light)
            res = {}
            if mode == "color":
                s.do(sc, "render", cam)
                ib = s.param("image_b", [s.h, s.w, s.C])
                s.do(sc, "render_backward", ib)
            else:
                s.do(sc, "render_depth", cam, depth_scale=g.sym("dscale"))
                ib = s.param("image_b", [s.h, s.w, 1])
                s.do(sc, "render_depth_backward", ib)
            nat = s.natives()
            fw, bw = nat[-2], nat[-1]
            if fw.back or not bw.back:
                raise AnalysisError("unexpected native calls")
            pairs = [("vertices", s.get(mesh, "_vertices_b"), "vertices")]
            scal = []
            if mode == "color":
                scal.append(("ambient light", s.get(sc, "light_ambient_b"), "la"))
                if light:
                    pairs.append(("directional light", s.get(sc, "light_directional_b"), "ld"))
                if not textured:
                    pairs.append(("vertex colours", s.get(mesh, "vertices_colors_b"), "vcol"))
            for name, grad, label in pairs:
                if grad is None:
                    res[name] = "gradient is None"
                    continue
                L = s.pull(fw, s.seed(label), bw.key)
                res[name] = None if same(I, L, s.dual(grad, label)) else "not the derivative of the renderer's inputs"
            for name, grad, label in scal:
                L = s.pull(fw, seed_all(s, (), (label,)), bw.key)
                R = g.mul(I.num.node(I.num.scalar(I.num.arr(grad)) if isinstance(grad, Arr) else grad), g.sym("H:" + label))
                res[name] = None if same(I, L, R) else "not the derivative of the renderer's inputs"
            return res
        return f
    cases = []
    for light, tex in itertools.product((True, False), (False, True)):
        cases.append((light, tex, "color", False))
    cases += [(True, False, "depth", False), (True, False, "color", True), (True, False, "depth", True)]
    for light, tex, mode, dist in cases:
        name = "Scene3D %s, %s, %s directional light%s" % (mode, "textured" if tex else "vertex colours", "with" if light else "without",
                                                           ", lens distortion" if dist else "")
        for o in run(c, env, name, scen(light, tex, mode, dist)):
            for k, r in o.result.items():
                c.ob("adjoint of shading", "%s: %s" % (name, k), r is None, r or "", key="adjoint:%s:%s:%s" % (mode, "tex" if tex else "col", k))
    return c.finish(EXPL["G07"], [("paths explored", 10), ("Python functions analysed", 15)])


# ---------------------------------------------------------------- C01

def eqval(I, a, b):
    """None if equal, else a description"""
    if isinstance(a, PtrVal):
        a = a.arr
    if isinstance(b, PtrVal):
        b = b.arr
    if isinstance(a, Null):
        a = None
    return arrays_equal(I, a, b)


def c01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("orientation, culling, pixel-centre convention, perspective correctness, background, image size and blending width handed to the compiled renderer "
           "are those of the mesh, the call, the scene and the camera, in every 3D mode")
    c.rule("the three corners of face f handed to the compiled renderer are the projections (and depths) of the corners of the mesh's face f, in order; "
           "deferred channels hold the corner's attribute")

    def scen(mode, bg, textured, zero_sigma):
        def f(I):
            s = S(I)
            num = I.num
            cam = s.cam = s.camera()
            mesh = s.mesh(textured=textured, clockwise=s.flag("clockwise"))
            sigma = 0 if zero_sigma else g.sym("sigma")
            sc = scene3d(s, mesh, True, bg if mode != "depth" else None, sigma=sigma, perspective_correct=s.flag("persp"), integer_pixel_centers=s.flag("ipc"))
            cull = s.flag("cull")
            kw = {"backface_culling": cull}
            ds = g.sym("dscale")
            bgv = None
            if mode == "depth":
                if bg == "color":
                    s.do(sc, "set_background_color", s.param("bgc", [1]))
                else:
                    s.do(sc, "set_background_image", s.param("bgi", [s.h, s.w, 1]))
            if mode == "render":
                out = s.do(sc, "render", cam, return_z_buffer=s.flag("zb"), **kw)
            elif mode == "depth":
                out = s.do(sc, "render_depth", cam, depth_scale=ds, **kw)
            else:
                out = s.do(sc, "render_deferred", cam, depth_scale=ds, **kw)
            fw = s.natives()[-1]
            res = {}
            want = {"clockwise": s.flag("clockwise"), "backface_culling": cull, "integer_pixel_centers": s.flag("ipc"), "perspective_correct": s.flag("persp"),
                    "height": s.h, "width": s.w}
            for k, v in want.items():
                res[k] = eqval(I, fw.value(k), v)
            res["sigma"] = eqval(I, fw.value("sigma"), g.ZERO if mode == "deferred" else num.node(sigma))
            p2, dep = s.do(cam, "project_points", s.get(mesh, "vertices"))
            p2, dep = num.reader(num.arr(p2)), num.reader(num.arr(dep))
            F = num.arr(s.get(mesh, "faces"))
            rF = num.reader(F)
            nf, nij, nd, ncol = [fw.snap.get(k) for k in ("faces", "ij", "depths", "colors")]
            fi = g.sym("gen:face", True)

            nfaces = mesh_faces(num, F)

            def corner(a, ncomp, f, k, comp):
                v = native_at(num, nf, num.flat((f, nfaces), (k, 3)))
                if g.equal(v, num.flat((f, nfaces), (k, 3))):       # triangle soup
                    return native_at(num, a, num.flat((f, nfaces), (k, 3), (comp, ncomp)))
                return native_at(num, a, num.flat((v, fw.value("nb_vertices")), (comp, ncomp)))
            bad = None
            for k in range(3):
                mv = rF(((fi,), (k,)))
                for comp in range(2):
                    a, b = corner(nij, 2, fi, k, comp), p2(((mv,), (comp,)))
                    if not same(I, a, b):
                        bad = "corner %d: %s instead of %s" % (k, show(a)[:150], show(b)[:150])
                a, b = corner(nd, 1, fi, k, 0), dep(((mv,),))
                if not same(I, a, b):
                    bad = "depth of corner %d: %s instead of %s" % (k, show(a)[:150], show(b)[:150])
            res["face corners"] = bad
            bi, bc = fw.value("background_image"), fw.value("background_color")
            if mode != "deferred":
                have = fw.snap.get("background_image" if bg == "image" else "background_color")
                src = s.param("bgi", [s.h, s.w, s.C if mode == "render" else 1]) if bg == "image" else s.param("bgc", [s.C if mode == "render" else 1])
                if have is None:
                    res["background"] = "the scene's background is not handed over"
                else:
                    res["background"] = arrays_equal(I, num.reshape(have, [-1]), num.reshape(src, [-1]))
                oi = g.sym("gen:y", True), g.sym("gen:x", True)
                flags = fw.snap.get("edgeflags")
                e = s.do(mesh, "edge_on_silhouette", s.do(cam, "project_points", s.get(mesh, "vertices"))[0])
                e = num.arr(e)
                ok = True
                for k in range(3):
                    x = native_at(num, flags, num.flat((fi, nfaces), (k, 3)))
                    y = num.at(e, ((fi,), (k,)))
                    y = g.sel(I.num.lt(g.ZERO, num.node(sigma)), y, g.ZERO) if not zero_sigma else g.ZERO
                    x = under(I, x)
                    if not g.equal(x, under(I, y)):
                        ok = False
                res["silhouette flags"] = None if ok else "flags are not those of the mesh for this view"
            if mode == "render":
                img = out[0] if isinstance(out, tuple) else out
                res["image returned"] = arrays_equal(I, img, fw.p["image"].arr)
                if isinstance(out, tuple):
                    res["depth returned"] = arrays_equal(I, out[1], fw.p["z_buffer"].arr)
            elif mode == "depth":
                res["image returned"] = arrays_equal(I, out, fw.p["image"].arr)
                bad = None
                for k in range(3):
                    mv = rF(((fi,), (k,)))
                    a, b = corner(ncol, 1, fi, k, 0), g.mul(dep(((mv,),)), ds)
                    if not same(I, a, b):
                        bad = "corner %d holds %s" % (k, show(a)[:150])
                res["depth channel"] = bad
            else:
                res.update(deferred(I, s, mesh, fw, out, corner, rF, dep, ds, fi))
            return res
        return f

    def deferred(I, s, mesh, fw, out, corner, rF, dep, ds, fi):
        g, num = I.g, I.num
        res = {}
        img = fw.p["image"].arr
        NC = num.node(fw.value("nb_colors"))
        want = {}
        V = num.reader(num.arr(s.get(mesh, "vertices")))
        nrm = num.reader(num.arr(s.get(mesh, "vertex_normals")))
        want["depth"] = (1, lambda k, mv, j: g.mul(dep(((mv,),)), ds))
        want["face_id"] = (1, lambda k, mv, j: fi)
        want["barycentric"] = (3, lambda k, mv, j: g.ONE if j == k else g.ZERO)
        want["normal"] = (3, lambda k, mv, j: nrm(((mv,), (j,))))
        want["xyz"] = (3, lambda k, mv, j: V(((mv,), (j,))))
        ld = num.reader(s.param("ld", [3]))

        def lumi(k, mv, j):
            d = g.ZERO
            for q in range(3):
                d = g.sub(d, g.mul(nrm(((mv,), (q,))), ld(((q,),))))
            return g.add(num.amax(g.ZERO, d), g.sym("la"))
        want["luminosity"] = (1, lumi)
        if s.get(mesh, "uv") is None:
            vc = num.arr(s.get(mesh, "vertices_colors"))
            rc = num.reader(vc)
            want["color"] = (None, lambda k, mv, j: rc(((mv,), (j,))))
        else:
            UV, FUV = num.reader(num.arr(s.get(mesh, "uv"))), num.reader(num.arr(s.get(mesh, "faces_uv")))
            want["uv"] = (2, lambda k, mv, j: UV(((FUV(((fi,), (k,))),), (j,))))
        if not isinstance(out, dict) or set(out) != set(want):
            return {"channels": "returns %s" % (sorted(out) if isinstance(out, dict) else out)}
        y, x = g.sym("gen:y", True), g.sym("gen:x", True)
        bg = fw.snap.get("background_image")
        for name, (n, f) in want.items():
            a = num.arr(out[name])
            comps = range(n) if n else [g.sym("gen:ch", True)]
            if not n:
                num.nonneg = [g.sym("gen:ch", True)]
            bad = None
            for j in comps:
                # which channel of the native image is this
                px = num.at(a, ((y,), (x,), (j,)))
                if px.op != "fn" or px.val != "nat:image":
                    bad = "not a channel of the rendered image"
                    break
                ch = px.args[-1]
                for k in range(3):
                    mv = rF(((fi,), (k,)))
                    have = corner(fw.snap.get("colors"), NC, fi, k, ch)
                    exp = f(k, mv, j)
                    if not same(I, have, exp):
                        bad = "corner %d holds %s instead of %s" % (k, show(have)[:150], show(exp)[:150])
                if bg is not None:
                    b = native_at(num, bg, num.flat((y, s.h), (x, s.w), (ch, NC)))
                    if name == "depth":
                        exp = I.num.node(I.num.scalar(I.num.arr(s.I.binop(ast.Mult(), s.do(num.arr(s.do(s.cam, "project_points", s.get(mesh, "vertices"))[1]), "max"), ds))))
                        if not same(I, b, exp):
                            bad = "background of the depth channel is %s" % show(b)[:150]
            res["channel " + name] = bad
        return res

    cases = [("render", bg, tex, z) for bg in ("color", "image") for tex in (False, True) for z in (False, True)]
    cases += [("depth", bg, False, False) for bg in ("color", "image")] + [("deferred", "color", False, True), ("deferred", "color", True, True)]
    for mode, bg, tex, z in cases:
        name = "Scene3D.%s, %s, background %s%s" % ({"render": "render", "depth": "render_depth", "deferred": "render_deferred"}[mode], "textured" if tex else "vertex colours", bg,
                                                    ", sigma=0" if z else "")
        for o in run(c, env, name, scen(mode, bg, tex, z)):
            for k, r in o.result.items():
                c.ob("render modes honour the settings", "%s: %s" % (name, k), r is None, r or "", key="settings:%s:%s" % (mode, k))
    return c.finish(EXPL["C01"], [("paths explored", 12)])


def mesh_faces(num, F):
    return num.dimnode(F.dims[0])


def unflat(num, i, d):
    """flat integer i as an index of dimension d"""
    return num.reindex((num.node(i),), num.dim(num.g.sym("flat", True)), d)


def native_at(num, a, i):
    """element i of the memory a native pointer refers to (C order)"""
    if a is None:      # handed over by an operation without a model, or not at all
        return num.g.fn("unknown array", (num.node(i),))
    r = num.reshape(a, [-1])
    return num.at(r, (unflat(num, i, r.dims[0]),))


# ---------------------------------------------------------------- S02

KEEP = {"flatten(...)", "ravel(...)", "reshape(...)", "astype(...)", "copy(...)", "array(...)", "ascontiguousarray(...)"}


def source(o):
    while isinstance(o, Opq) and (o.label in KEEP or o.label.startswith("array(")) and o.args and isinstance(o.args[0], Opq):
        o = o.args[0]
    return o


def s02(c):
    env = PyEnv(c)
    g = env.g
    c.rule("at every call of the compiled renderer, the checks passed on the path entail rank, extents, non-None-ness and index range of each array "
           "(the size the native code assumes from the counts it is given)")
    c.rule("every buffer whose address is taken is declared C-contiguous with the element type of the pointer")
    c.rule("no caller in the package switches the checks off")
    arrays = ["faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture"]

    def scen(entry, back, err, bg, switch):
        def f(I):
            s = S(I)

            def A(n):
                return Opq(g.sym(n), n, (), "array")
            sc = Inst(s.cls("Scene2DBase"))
            at = sc.attrs
            for n in arrays + [x + "_b" for x in ("uv", "ij", "shade", "colors", "texture")]:
                at[n] = A(n)
            for n in ("height", "width", "nb_colors"):
                at[n] = g.sym("scene." + n, True)
            for n in ("clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers"):
                at[n] = s.flag(n)
            at["background_image"] = A("background_image") if bg in ("image", "both") else None
            at["background_color"] = A("background_color") if bg in ("color", "both") else None
            for v in at.values():
                if isinstance(v, Opq):
                    I.assume(g.b_not(I.isnone(v)))

            def typed(I, fn, args, kw):
                names = [a.arg for a in fn.node.args.args]
                for a, v in list(zip(fn.node.args.args, args)) + [(a, kw[a.arg]) for a in fn.node.args.args if a.arg in kw]:
                    t = a.annotation.value if a.annotation is not None else ""
                    if isinstance(v, Opq) and "ndarray[" in str(t) and "ndim=" in t:
                        k = int(t.split("ndim=")[1].split("]")[0].split(",")[0])
                        I.assume(g.b_or(I.isnone(v), g.b_eq0(g.sub(g.fn("ndim", (v.node,), isint=True), g.const(k)))))
                return NotImplemented
            I.hooks["renderSceneCpp"] = I.hooks["renderSceneBCpp"] = typed
            kw = {}
            if switch:
                kw["check_valid"] = s.flag("check_valid")
            mod = "deodr.differentiable_renderer"
            name = "renderSceneB" if back else "renderScene"
            if entry == "cython":
                mod = "deodr.differentiable_renderer_cython"
                name += "Cpp"
            args = [sc, g.sym("sigma"), A("image"), A("z_buffer")] + ([A("image_b")] if back else []) + [err, A("obs"), A("err_buffer")]
            if back:
                args.append(A("err_buffer_b"))
            I.call(s.cls(name, mod), args, kw)
            return [(n, I.pc) for n in s.natives()]
        return f

    def judge(I, call, back, err, where):
        F = Facts(I, call.pc)
        g = I.g
        base = {}
        for k, v in list(call.sc.items()) + list(call.p.items()):
            if isinstance(v, PtrVal):
                base[k] = source(v.arr)

        def val(k):
            return I.num.node(call.sc[k]) if k in call.sc else None
        H, W, NT, NV, NU, NC = [val(k) for k in ("height", "width", "nb_triangles", "nb_vertices", "nb_uv", "nb_colors")]

        def shape(a, k):
            return g.fn("shape", (a.node, g.const(k)), isint=True)

        def extent(k, dims, alt=None):
            a = base.get(k)
            if a is None:
                c.ob("array checked before native code", "%s: %s" % (where, k), False, "no array is handed over", key="extent:%s:%s" % (where.split()[0], k))
                return
            n = g.ONE
            for d in dims:
                n = g.mul(n, d)
            ok = all(F.eq(shape(a, i), d) for i, d in enumerate(dims)) and F.eq(g.fn("ndim", (a.node,), isint=True), g.const(len(dims)))
            if not ok:     # only the element count matters to the native code
                ok = F.eq(g.fn("size", (a.node,), isint=True), n)
            if not ok and alt is not None:
                ok = alt(a)
            c.ob("array checked before native code", "%s: %s" % (where, k), ok,
                 "" if ok else "%s reaches the native code without its size being checked" % a.label, key="extent:%s:%s" % (where.split()[0], k))
            if k in ("obs", "err_buffer", "err_buffer_b", "image_b", "image", "z_buffer"):
                ok = F.holds(g.b_not(I.isnone(a)))
                c.ob("array checked before native code", "%s: %s is not None" % (where, k), ok,
                     "" if ok else "%s may be None" % a.label, key="none:%s:%s" % (where.split()[0], k))
        three = g.const(3)
        extent("faces", [NT, three])
        extent("faces_uv", [NT, three])
        extent("depths", [NV])
        extent("uv", [NU, g.const(2)])
        extent("ij", [NV, g.const(2)])
        extent("shade", [NV])
        extent("colors", [NV, NC])
        extent("edgeflags", [NT, three])
        extent("textured", [NT])
        extent("shaded", [NT])
        extent("image", [H, W, NC])
        extent("z_buffer", [H, W])
        if isinstance(call.sc.get("background_image"), PtrVal):
            extent("background_image", [H, W, NC])
        elif isinstance(call.sc.get("background_color"), PtrVal):
            extent("background_color", [NC])
        else:
            c.ob("array checked before native code", "%s: background" % where, False, "neither a background image nor a colour is handed over", key="bg:%s" % where.split()[0])
        tex = base.get("texture")
        TH, TW = val("texture_height"), val("texture_width")

        def unused(a):
            empty = F.lt(g.fn("size", (tex.node,), isint=True), g.ONE)
            if not empty:
                return False
            x, y = base["textured"], base["shaded"]
            both = ((x, y), (y, x))
            names = {I.call_ext("numpy.logical_and", [p, q], {}).node for p, q in both} | {I.binop(ast.BitAnd(), p, q).node for p, q in both}
            for k, n, pos in F.atoms("red:any"):
                if not pos and n in names:
                    return True
            return False
        extent("texture", [TH, TW, NC], unused)
        if not unused(tex):
            for nm, x in (("height", TH), ("width", TW)):
                ok = F.lt(g.ZERO, x)
                c.ob("array checked before native code", "%s: texture %s is positive" % (where, nm), ok, "" if ok else "texture without rows or columns", key="tex:%s" % where.split()[0])
        if back:
            extent("ij_b", [NV, g.const(2)])
            extent("uv_b", [NU, g.const(2)])
            extent("shade_b", [NV])
            extent("colors_b", [NV, NC])
            extent("texture_b", [TH, TW, NC], unused)
        if err:
            extent("obs", [H, W, NC])
            extent("err_buffer", [H, W])
            if back:
                extent("err_buffer_b", [H, W])
        elif back:
            extent("image_b", [H, W, NC])

        def below(k, n):
            a = base[k]
            for kind, node, pos in F.atoms("red:all", "red:any"):
                if node.op == "fn" and node.val.startswith("cmp:"):
                    op, (x, y) = node.val[4:], node.args
                    if y is a.node:
                        x, y, op = y, x, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
                    if x is not a.node:
                        continue
                    if kind == "red:any" and not pos:
                        op = {"Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt"}.get(op)
                    elif not (kind == "red:all" and pos):
                        continue
                    if op == "Lt" and (F.eq(y, n) or F.lt(y, n)) or op == "LtE" and F.lt(y, n):
                        return True
            mx = [m for m in g.walk([F.I.g.boolnode(F.pc)]) if m.op == "fn" and m.val in ("opq:max", "opq:amax") and m.args[0] is a.node]
            return any(F.lt(m, n) for m in mx)

        def nonneg(k):
            a = base[k]
            dt = g.fn("dtype", (a.node,))
            for kind, node, pos in F.lits:
                if kind.startswith("eq:") and pos and node.op == "fn" and dt in node.args and any("numpy.uint" in show(x) for x in node.args):
                    return True
            for kind, node, pos in F.atoms("red:all", "red:any"):
                if node.op == "fn" and node.val.startswith("cmp:"):
                    op, (x, y) = node.val[4:], node.args
                    if y is a.node:
                        x, y, op = y, x, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
                    if x is a.node and y.op == "const":
                        if kind == "red:all" and pos and (op == "GtE" and y.val >= 0 or op == "Gt" and y.val >= -1):
                            return True
                        if kind == "red:any" and not pos and (op == "Lt" and y.val >= 0 or op == "LtE" and y.val >= -1):
                            return True
            return False
        for k, n in (("faces", NV), ("faces_uv", NU)):
            ok = below(k, n)
            c.ob("index range", "%s: %s below its bound" % (where, k), ok, "" if ok else "an index may exceed the array it selects from", key="range:%s:%s" % (where.split()[0], k))
            ok = nonneg(k)
            c.ob("index range", "%s: %s not negative" % (where, k), ok, "" if ok else "a negative index may wrap to a huge unsigned one", key="sign:%s:%s" % (where.split()[0], k))
        for nm, e in (("height", H), ("width", W), ("3*nb_colors", g.mul(three, NC))):
            ok = F.lt(e, g.const(32768))
            c.ob("16-bit loop counters", "%s: %s" % (where, nm), ok, "" if ok else "%s may exceed the range of the native loop counters" % nm, key="short:%s:%s" % (where.split()[0], nm))

    for entry in ("python", "cython"):
        for back, err, bg in itertools.product((False, True), (False, True), ("image", "color", "both", "none")):
            where = "%s%s %s, error mode %s, background %s" % ("renderSceneB" if back else "renderScene", "Cpp" if entry == "cython" else "", entry, "on" if err else "off", bg)
            outs = env.explore(scen(entry, back, err, bg, entry == "python"))
            n = 0
            for o in outs:
                if o.raised is not None:
                    continue
                for call, pc in o.result:
                    n += 1
                    judge(o.I, call, back, err, where)
            if bg in ("both", "none"):
                c.ob("ill-formed scenes never reach native code", where, n == 0, "%d paths reach the native call" % n, key="reach:%s" % where)
            else:
                c.count("native calls reached", n)
                c.ob("well-formed scenes reach native code", where, n > 0, "no path reaches the native renderer" if not n else "", key="reach:%s" % where)
    s02_types(c)
    s02_callers(c)
    return c.finish(EXPL["S02"], [("native calls reached", 8), ("address-of-buffer sites", 10), ("calls of the native entry points", 6)])


CT = {"double": {"double", "double_t", "float64_t"}, "unsigned int": {"uint32_t", "unsigned int"}, "bool": {"uint8_t", "bool", "npy_bool", "bool_t"}}


def s02_types(c):
    """<T*> x.data: x is a declared, C-contiguous buffer of T"""
    import pyx
    for fn in pyx.walk(pyx.tree(c.repo)):
        if type(fn).__name__ not in ("DefNode", "CFuncDefNode"):
            continue
        decl = {}
        for n in pyx.walk(fn):
            if type(n).__name__ == "CVarDefNode":
                for d in n.declarators:
                    decl[str(pyx.decl_name(d))] = pyx.typestr(n.base_type, d)
        for a in getattr(fn, "args", None) or []:
            decl[str(pyx.decl_name(a.declarator))] = pyx.typestr(a.base_type, a.declarator)
        for n in pyx.walk(fn):
            if type(n).__name__ == "TypecastNode" and type(n.operand).__name__ == "AttributeNode" and str(n.operand.attribute) == "data":
                t = pyx.typestr(n.base_type, n.declarator)
                if not t.endswith("*"):
                    continue
                x = str(getattr(n.operand.obj, "name", "?"))
                d = decl.get(x, "")
                c.count("address-of-buffer sites", 1)
                el = d[d.index("[") + 1:].split(",")[0].rstrip("]").split(".")[-1] if "[" in d else ""
                ok = el in CT.get(t[:-1], {t[:-1]}) and "mode=c" in d
                c.ob("buffer declaration matches the pointer", "%s line %d: <%s> %s.data" % (fn.name if hasattr(fn, "name") else "cdef", n.pos[1], t, x), ok,
                     "" if ok else "%s is declared %s" % (x, d or "without a buffer type"), key="cast:%s:%s" % (getattr(fn, "name", "cdef"), x))


def s02_callers(c):
    """renderSceneCpp/renderSceneBCpp are only called with their checks on"""
    for p in sorted(glob.glob(os.path.join(c.repo, "deodr", "**", "*.py"), recursive=True)):
        if "/tensorflow/" in p:
            continue
        for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in ("renderSceneCpp", "renderSceneBCpp", "renderScene", "renderSceneB"):
                    c.count("calls of the native entry points", 1)
                    bad = [k for k in n.keywords if k.arg == "check_valid" and not (isinstance(k.value, ast.Constant) and k.value.value)]
                    pos = {"renderScene": 7, "renderSceneCpp": 7, "renderSceneB": 9, "renderSceneBCpp": 9}[nm]
                    if len(n.args) > pos and not (isinstance(n.args[pos], ast.Constant) and n.args[pos].value):
                        bad.append(n.args[pos])
                    c.ob("checks are not switched off", "%s:%d" % (os.path.relpath(p, c.repo), n.lineno), not bad, "check_valid is switched off" if bad else "",
                         key="off:%s:%s" % (os.path.relpath(p, c.repo), nm))


EXPL = {
    "C01": "Abstract interpretation of Scene3D.render, render_depth and render_deferred with symbolic mesh, camera, flags and backgrounds; the values handed to the "
           "compiled renderer and the returned buffers are compared with the settings, for a generic face, corner, vertex and pixel.",
    "S02": "Abstract interpretation of the Python and Cython entry points with arrays of unknown rank, extents, type and content: each path that reaches the compiled "
           "renderer must have passed checks that entail what the native code assumes. Scenes with both or no background must not reach it at all.",
    "G06": "Abstract interpretation of Camera.project_points and project_points_backward with every matrix entry, point and gradient symbolic; the adjoint "
           "equation is compared as normalised polynomial/rational terms.",
    "G07": "Abstract interpretation of Scene3D.render/render_backward and render_depth/render_depth_backward and everything they call in the repository, with a mesh "
           "of symbolic size; the compiled renderer is an uninterpreted function (its own adjoint is G01-G03).",
}
