"""Python halves of C02, C03, S04, D01 and the checks of Scene2D's entry points."""
import itertools
from gvn import AnalysisError, show
from pynum import Arr, Opq, SymBool
from pyinterp import Inst, PtrVal, Null
from facts import Facts
from pyenv import PyEnv, S, arrays_equal
from checks_python import under, same, run, scene3d, native_at, mesh_faces, eqval

SETTINGS = ("clockwise", "backface_culling", "strict_edge", "perspective_correct", "integer_pixel_centers")


def scene2d(s, bg="image", tag="", **kw):
    """a Scene2D of symbolic size whose every field is a caller-owned array"""
    g = s.g
    th, tw, U = g.sym("th", True), g.sym("tw", True), g.sym("U", True)
    for x in (th, tw, U):
        s.I.assume(g.b_not(g.b_lt0(g.sub(x, g.ONE), True)))
    P = lambda n, d, t="f8": s.param(n + tag, d, t)
    a = dict(faces=P("faces", [s.F, 3], "u4"), faces_uv=P("faces_uv", [s.F, 3], "u4"), ij=P("ij", [s.V, 2]), depths=P("depths", [s.V]),
             textured=P("textured", [s.F], "b1"), uv=P("uv", [U, 2]), shade=P("shade", [s.V]), colors=P("colors", [s.V, s.C]), shaded=P("shaded", [s.F], "b1"),
             edgeflags=P("edgeflags", [s.F, 3], "b1"), height=s.h, width=s.w, nb_colors=s.C, texture=P("texture", [th, tw, s.C]),
             background_image=P("bgi", [s.h, s.w, s.C]) if bg == "image" else None, background_color=P("bgc", [s.C]) if bg == "color" else None)
    for f in SETTINGS:
        a[f] = s.flag(f + tag)
    a.update(kw)
    return s.new("Scene2D", **a)


def entry2d(s, sc, name, copies=None, tag=""):
    """call one public entry point of Scene2D, with the forward call it needs; returns what it returns"""
    g = s.g
    sig = g.sym("sigma" + tag)
    kw = {} if copies is None else {"make_copies": copies}
    obs = s.param("obs" + tag, [s.h, s.w, s.C])
    if name == "render":
        return s.do(sc, "render", sig)
    if name == "render_error":
        return s.do(sc, "render_error", obs, sig)
    if name == "render_backward":
        s.do(sc, "render", sig)
        return s.do(sc, "render_backward", s.param("image_b" + tag, [s.h, s.w, s.C]), **kw)
    if name == "render_error_backward":
        s.do(sc, "render_error", obs, sig)
        return s.do(sc, "render_error_backward", s.param("err_b" + tag, [s.h, s.w]), **kw)
    err = name.endswith(":error")
    return s.do(sc, "render_compare_and_backward", obs, sig, err, **kw)


ENTRY2D = ("render", "render_error", "render_backward", "render_error_backward", "render_compare_and_backward", "render_compare_and_backward:error")


# ---------------------------------------------------------------- settings reach the native code (C02, S04)

def settings2d(c, env, which, rule):
    c.rule("Scene2D: %s handed to every native call is the scene's" % ", ".join(which))

    def scen(name):
        def f(I):
            s = S(I)
            sc = scene2d(s)
            entry2d(s, sc, name)
            bad = []
            for n in s.natives():
                for k in which:
                    r = eqval(I, n.value(k), s.flag(k))
                    if r:
                        bad.append("%s: %s" % (k, r))
                for k, v in (("sigma", I.g.sym("sigma")), ("height", s.h), ("width", s.w), ("nb_colors", s.C)):
                    r = eqval(I, n.value(k), v)
                    if r:
                        bad.append("%s: %s" % (k, r))
            return len(s.natives()), bad
        return f
    for name in ENTRY2D:
        for o in run(c, env, "Scene2D." + name, scen(name)):
            n, bad = o.result
            c.ob(rule, "Scene2D.%s (%d native calls)" % (name, n), not bad and n > 0, "; ".join(bad), key="settings2d:%s" % name)


def c02_python(c):
    settings2d(c, PyEnv(c), ("integer_pixel_centers", "clockwise", "strict_edge", "backface_culling"), "pixel-centre convention reaches the native code")
    env = PyEnv(c)
    c.rule("Scene3D: the convention of the scene reaches every native call, and the projected coordinates handed over do not depend on it")

    def scen(mode):
        def f(I):
            s = S(I)
            g = I.g
            cam, mesh = s.camera(), s.mesh()
            sc = scene3d(s, mesh, True, None if mode == "depth" else "color", sigma=0 if mode == "deferred" else g.sym("sigma"),
                         integer_pixel_centers=s.flag("ipc"))
            if mode == "depth":
                s.do(sc, "set_background_color", s.param("bgc", [1]))
                s.do(sc, "render_depth", cam)
                s.do(sc, "render_depth_backward", s.param("image_b", [s.h, s.w, 1]))
            elif mode == "render":
                s.do(sc, "render", cam)
                s.do(sc, "render_backward", s.param("image_b", [s.h, s.w, s.C]))
            else:
                s.do(sc, "render_deferred", cam)
            bad = []
            for n in s.natives():
                r = eqval(I, n.value("integer_pixel_centers"), s.flag("ipc"))
                if r:
                    bad.append(r)
                a = n.snap["ij"]
                atom = g.b_atom("in:ipc", g.ZERO)
                for i in itertools.product(*[[g.sym("gen:%d" % k, True)] if not isinstance(t, int) else range(min(t, 3)) for k, t in enumerate(a.dims[0])]):
                    x = I.num.at(a, (tuple(i),))
                    deps = {v for m in g.walk([x]) if m.op == "sel" for v in g.bdd_vars(m.val)} | {v for m in g.walk([x]) if m.op == "bool" for v in g.bdd_vars(m.val)}
                    if any(g.atoms[v][0] == "in:ipc" for v in deps):
                        bad.append("the coordinates handed over depend on the convention")
            return len(s.natives()), bad
        return f
    for mode in ("render", "depth", "deferred"):
        for o in run(c, env, "Scene3D " + mode, scen(mode)):
            n, bad = o.result
            c.ob("pixel-centre convention reaches the native code", "Scene3D %s (%d native calls)" % (mode, n), not bad and n > 0, "; ".join(bad), key="settings3d:%s" % mode)


# ---------------------------------------------------------------- C03

def edge_key(I, e, a, b, V):
    """is term e an edge number that two corners share exactly when the unordered pairs {a,b} agree?"""
    g, num = I.g, I.num
    e = num.node(e)
    if e.op != "fn" or e.val != "uid":
        return "the edge number is not that of a table of distinct edges: %s" % show(e)[:120]
    row = e.args[1:]
    below, above = num.lt(a, b), num.lt(b, a)
    below, above = g.b_and(below, g.b_not(above)), g.b_and(above, g.b_not(below))

    def sides(n):
        sels = [x for x in g.walk([n]) if x.op == "sel"]
        return tuple(g.subst(n, {x: g.assume(x, c) for x in sels if g.assume(x, c) is not x}) for c in (below, above))
    # both orders of the two corners give (smaller, larger) or both give (larger, smaller)
    if len(row) == 2:
        for x, y in (((a, b), (b, a)), ((b, a), (a, b))):
            if all(g.equal(s, t) for n, w in zip(row, (x, y)) for s, t in zip(sides(n), w)):
                return None
    if len(row) == 1:
        low, high = sides(row[0])
        for p, q in ((a, b), (b, a)):
            k = g.sub(g.div(g.sub(low, p), q), V)        # low == p + (V + k) q with a constant k >= 0
            if k.op == "const" and k.val >= 0 and g.equal(high, g.add(q, g.mul(g.add(V, k), p))):
                return None
        return "two edges may share a number, or one edge have two: key %s" % show(row[0])[:160]
    return "unrecognised edge key"


def c03_python(c):
    env = PyEnv(c)
    g = env.g
    c.rule("entry (f, n) of the mesh's edge table is the edge joining corners n and n+1 of face f, whatever their order")
    c.rule("flag (f, n) is set iff exactly one front-facing face has that edge, front-facing as in the native code")

    def scen(I):
        s = S(I)
        num = I.num
        F = s.param("faces", [s.F, 3], "u4")
        adj = s.new("TriMeshAdjacencies", F, s.flag("clockwise"), s.V, mod="deodr.triangulated_mesh")
        P = s.param("P", [s.V, 2])
        e = s.do(adj, "edge_on_silhouette", P)
        E, rP, rF = num.reader(num.arr(s.get(adj, "faces_edges"))), num.reader(P), num.reader(F)
        ef = num.arr(e)
        res = {}
        f = g.sym("gen:face", True)
        res["edge table shape"] = None if num.arr(s.get(adj, "faces_edges")).ndim == 2 and ef.ndim == 2 else "not one entry per corner"
        ids = [num.node(E(((f,), (k,)))) for k in range(3)]
        res["one table of edges"] = None if all(i.op == "fn" and i.args[0] is ids[0].args[0] for i in ids) else "the three corners number edges differently"
        for k in range(3):
            a, b = rF(((f,), (k,))), rF(((f,), ((k + 1) % 3,)))
            res["edge number of corner %d" % k] = edge_key(I, ids[k], a, b, s.V)
        cw = s.flag("clockwise").b

        def front(q):
            v = [[rP(((rF(((q,), (k,))),), (d,))) for d in (0, 1)] for k in range(3)]
            ux, uy, vx, vy = [g.sub(v[i][d], v[0][d]) for i in (1, 2) for d in (0, 1)]
            area = g.sub(g.mul(ux, vy), g.mul(uy, vx))
            return g.boolnode(g.ite(cw, g.b_lt0(g.neg(area), False), g.b_lt0(area, False)))
        for k in range(3):
            n = num.total([num.dim(s.F)], lambda q: g.add(g.add(*[g.mul(num.delta(E((q[0], (j,))), ids[k]), front(q[0][0])) for j in (0, 1)]),
                                                          g.mul(num.delta(E((q[0], (2,))), ids[k]), front(q[0][0]))))
            want = g.boolnode(num.eq(n, g.ONE))
            have = num.at(ef, ((f,), (k,)))
            have = g.boolnode(g.tobdd(have)) if have.op != "bool" else have
            res["flag of corner %d" % k] = None if same(I, have, want) else "differs from: exactly one front-facing face has the edge"
        return res
    for o in run(c, env, "TriMeshAdjacencies.edge_on_silhouette", scen, opaque_sparse=False):
        for k, r in o.result.items():
            c.ob("flags and native edges agree", "TriMeshAdjacencies: %s" % k, r is None, r or "", key="edges:%s" % k)
    env = PyEnv(c)
    c.rule("Scene3D hands over the flags computed on the coordinates, faces and orientation it hands over")

    def scen3(mode, tex):
        def f(I):
            s = S(I)
            g, num = I.g, I.num
            cam, mesh = s.camera(), s.mesh(textured=tex)
            I.assume(g.b_lt0(g.neg(g.sym("sigma")), False))
            sc = scene3d(s, mesh, True, "color" if mode == "render" else None, sigma=g.sym("sigma"))
            if mode == "render":
                s.do(sc, "render", cam)
            else:
                s.do(sc, "set_background_color", s.param("bgc", [1]))
                s.do(sc, "render_depth", cam)
            n = s.natives()[-1]
            res = {}
            res["orientation"] = eqval(I, n.value("clockwise"), s.flag("clockwise"))
            want = num.arr(s.do(s.get(mesh, "adjacencies"), "edge_on_silhouette", s.do(cam, "project_points", s.get(mesh, "vertices"))[0]))
            res["adjacency orientation"] = eqval(I, s.get(mesh, "adjacencies", "clockwise"), s.flag("clockwise"))
            fi, nf = g.sym("gen:face", True), mesh_faces(num, num.arr(s.get(mesh, "faces")))
            rF = num.reader(num.arr(s.get(mesh, "faces")))
            for k in range(3):
                i = num.flat((fi, nf), (k, 3))
                x, y = native_at(num, n.snap.get("edgeflags"), i), num.at(want, ((fi,), (k,)))
                res["flag %d" % k] = None if same(I, x, y) else "%s instead of the mesh's flag" % show(x)[:100]
                x, y = native_at(num, n.snap.get("faces"), i), rF(((fi,), (k,)))
                res["corner %d" % k] = None if same(I, x, y) else "corner order differs from the mesh's"
            return res
        return f
    for mode, tex in (("render", False), ("render", True), ("depth", False)):
        for o in run(c, env, "Scene3D " + mode, scen3(mode, tex)):
            for k, r in o.result.items():
                c.ob("flags and native edges agree", "Scene3D %s%s: %s" % (mode, ", textured" if tex else "", k), r is None, r or "", key="edges3d:%s" % k)


# ---------------------------------------------------------------- S04

def s04_python(c):
    env = PyEnv(c)
    g = env.g
    c.rule("on every path of a public backward entry point that reaches the native backward pass, the mode it is given is the mode of the matching forward call, "
           "and either the path has refused perspective-correct and unculled rendering or the native code is told of it (and refuses, see the native part)")

    def judge(o, name):
        I = o.I
        calls = [e[1] for e in I.events if e[0] == "native"]
        back = [n for n in calls if n.back]
        if not back:
            c.ob("gradients belong to the rendered mode", name, False, "returns without running the native backward pass", key="mode:%s" % name)
            return
        n = back[-1]
        fw = [m for m in calls[:calls.index(n)] if not m.back][-1]
        for k in ("perspective_correct", "backface_culling", "clockwise", "integer_pixel_centers", "strict_edge", "sigma", "antialiase_error"):
            r = eqval(I, n.value(k), fw.value(k))
            c.ob("gradients belong to the rendered mode", "%s: %s" % (name, k), r is None, "rendered with another value: %s" % r if r else "", key="mode:%s:%s" % (name, k))
        for k, good in (("perspective_correct", False), ("backface_culling", True)):
            v = fw.value(k)
            v = I.g.tobdd(I.num.node(v)) if not isinstance(v, (bool, SymBool)) else (v.b if isinstance(v, SymBool) else int(v))
            ok = I.g.b_and(I.pc, I.g.b_not(v) if good else v) == 0
            nv = n.value(k)
            nv = I.g.tobdd(I.num.node(nv)) if not isinstance(nv, (bool, SymBool)) else (nv.b if isinstance(nv, SymBool) else int(nv))
            told = I.g.b_and(I.pc, I.g.b_and(I.g.b_not(v), nv) if good else I.g.b_and(v, I.g.b_not(nv))) == 0
            c.ob("unsupported modes are refused", "%s: %s" % (name, k), ok or told, "" if ok or told else "gradients are computed for an unsupported mode",
                 key="refuse:%s:%s" % (name, k))
    for name in ENTRY2D[2:]:
        for copies in (True, False):
            def scen(I, name=name, copies=copies):
                s = S(I)
                entry2d(s, scene2d(s), name, copies)
            for o in run(c, env, "Scene2D.%s make_copies=%s" % (name, copies), scen):
                judge(o, "Scene2D.%s make_copies=%s" % (name, copies))
    for mode in ("render", "depth"):
        for change in (False, True):
            def scen(I, mode=mode, change=change):
                s = S(I)
                cam, mesh = s.camera(), s.mesh()
                sc = scene3d(s, mesh, True, None if mode == "depth" else "color", sigma=I.g.sym("sigma"), perspective_correct=s.flag("persp"), integer_pixel_centers=s.flag("ipc"))
                if mode == "depth":
                    s.do(sc, "set_background_color", s.param("bgc", [1]))
                    s.do(sc, "render_depth", cam, backface_culling=s.flag("cull"))
                else:
                    s.do(sc, "render", cam, backface_culling=s.flag("cull"))
                if change:      # settings changed between the two calls
                    I.setattr(sc, "perspective_correct", s.flag("persp2"))
                    I.setattr(sc, "integer_pixel_centers", s.flag("ipc2"))
                if mode == "depth":
                    s.do(sc, "render_depth_backward", s.param("image_b", [s.h, s.w, 1]))
                else:
                    s.do(sc, "render_backward", s.param("image_b", [s.h, s.w, s.C]))
            name = "Scene3D.%s%s" % ({"render": "render_backward", "depth": "render_depth_backward"}[mode], ", settings changed after the forward call" if change else "")
            for o in run(c, env, name, scen):
                judge(o, name)


# ---------------------------------------------------------------- D01

def uninit_deps(g, n):
    out = set()
    for m in g.walk([n]):
        if m.op == "fn" and m.val.startswith("elem:uninit"):
            out.add(m.val[5:])
        for b in ([m.val] if m.op in ("sel", "bool") else []):
            for v in g.bdd_vars(b):
                for q in g.walk([g.atoms[v][1]]):
                    if q.op == "fn" and q.val.startswith("elem:uninit"):
                        out.add(q.val[5:])
                if g.atoms[v][0].startswith("elem:uninit"):
                    out.add(g.atoms[v][0][5:])
    return out


def generic(num, a):
    g = num.g
    axes = []
    for k, d in enumerate(a.dims):
        axes.append([tuple(t) for t in itertools.product(*[list(range(t)) if isinstance(t, int) and t <= 8 else [g.sym("gen:%d:%d" % (k, j), True)] for j, t in enumerate(d)])])
    for idx in itertools.product(*axes):
        yield num.at(a, idx)


def leaves(v, name="result", depth=0):
    if isinstance(v, (tuple, list)):
        for k, x in enumerate(v):
            yield from leaves(x, "%s[%d]" % (name, k), depth + 1)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, "%s[%s]" % (name, k), depth + 1)
    else:
        yield name, v


def d01_python(c):
    env = PyEnv(c)
    g = env.g
    c.rule("no value returned by a render or backward entry point, and no gradient field, depends on an element of an array that was allocated but never written")

    def collect(I, out, objs):
        vals = list(leaves(out))
        for o, names in objs:
            for n in names:
                vals.append((n, o.attrs.get(n)))
        res = {}
        for n, v in vals:
            if isinstance(v, Arr):
                bad = set()
                for x in generic(I.num, v):
                    bad |= uninit_deps(g, x)
                res[n] = bad
            elif v is not None and not isinstance(v, (Opq, Inst, str)):
                try:
                    res[n] = uninit_deps(g, I.num.node(v))
                except AnalysisError:
                    pass
        for n in [e[1] for e in I.events if e[0] == "native"]:
            for k in set(n.snap) - {"image", "z_buffer", "err_buffer"} | ({"image", "z_buffer"} if n.back else set()):
                if n.value("antialiase_error") in (False, 0) and k in ("obs", "err_buffer", "err_buffer_b") or k == "image_b" and n.value("antialiase_error") in (True, 1):
                    continue
                bad = set()
                for x in generic(I.num, n.snap[k]):
                    bad |= uninit_deps(g, x)
                res["native input %s" % k] = res.get("native input %s" % k, set()) | bad
        return res
    GR = ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")
    for name in ENTRY2D:
        def scen(I, name=name):
            s = S(I)
            sc = scene2d(s)
            out = entry2d(s, sc, name)
            return collect(I, out, [(sc, GR)])
        for o in run(c, env, "Scene2D." + name, scen):
            for k, bad in o.result.items():
                c.ob("results come from inputs only", "Scene2D.%s: %s" % (name, k), not bad, "depends on uninitialised %s" % ", ".join(sorted(bad)), key="uninit:%s:%s" % (name, k))
    for mode in ("render", "depth", "deferred"):
        for tex in (False, True):
            def scen(I, mode=mode, tex=tex):
                s = S(I)
                cam, mesh = s.camera(), s.mesh(textured=tex)
                sc = scene3d(s, mesh, True, None if mode == "depth" else "color", sigma=0 if mode == "deferred" else g.sym("sigma"))
                if mode == "depth":
                    s.do(sc, "set_background_color", s.param("bgc", [1]))
                    out = s.do(sc, "render_depth", cam)
                    s.do(sc, "render_depth_backward", s.param("image_b", [s.h, s.w, 1]))
                elif mode == "render":
                    out = s.do(sc, "render", cam, return_z_buffer=True)
                    s.do(sc, "render_backward", s.param("image_b", [s.h, s.w, s.C]))
                else:
                    out = s.do(sc, "render_deferred", cam)
                return collect(I, out, [(sc, ("light_directional_b", "light_ambient_b")), (mesh, ("_vertices_b", "vertices_colors_b"))])
            name = "Scene3D %s%s" % (mode, ", textured" if tex else "")
            for o in run(c, env, name, scen):
                for k, bad in o.result.items():
                    c.ob("results come from inputs only", "%s: %s" % (name, k), not bad, "depends on uninitialised %s" % ", ".join(sorted(bad)), key="uninit:%s:%s" % (name, k))


# ---------------------------------------------------------------- G09

def upstream(I, s, err, fw, bw, label):
    """the gradient handed to the native backward pass is the derivative of `err` with respect to what the forward pass produced"""
    g, num = I.g, I.num
    key = "err_buffer_b" if label == "err" else "image_b"
    a = bw.snap.get(key)
    if a is None:
        return "no upstream gradient reaches the native code"
    L = g.tangent(I.num.node(I.num.scalar(I.num.arr(err)) if isinstance(err, Arr) else err), s.seed(label, prefix="nat:"), {})
    rd = num.reader(a)
    R = num.total(a.dims, lambda i: g.mul(rd(i), g.fn("H:nat:" + label, [fw.key] + [num.node(x) for t in i for x in t])))
    return None if same(I, L, R) else "the upstream gradient is not the derivative of the returned error"


def g09(c):
    env = PyEnv(c)
    g = env.g
    c.rule("the upstream gradient handed to the native backward pass is the derivative of the returned error with respect to the image (or error buffer) "
           "of the forward call, for every observation and mask")
    c.rule("the error, image and buffers returned are those of the call")
    c.rule("separate backward entry points hand over the caller's upstream gradient as it is, with the state of the forward call")

    def whole(err, mask, copies, clear):
        def f(I):
            s = S(I)
            sc = scene2d(s)
            obs = s.param("obs", [s.h, s.w, s.C])
            m = s.param("mask", [s.h, s.w]) if mask else None
            out = s.do(sc, "render_compare_and_backward", obs, g.sym("sigma"), err, mask=m, clear_gradients=clear, make_copies=copies)
            fw, bw = s.natives()
            res = {}
            image, z, ebuf, e = out
            res["upstream gradient"] = upstream(I, s, e, fw, bw, "err" if err else "image")
            # the error is the sum of the returned buffer
            a = I.num.arr(ebuf)
            rd = I.num.reader(a)
            res["error is the sum of the error buffer"] = None if same(I, I.num.total(a.dims, rd), I.num.node(I.num.scalar(I.num.arr(e)) if isinstance(e, Arr) else e)) else "not the sum"
            F = lambda i: g.fn("nat:image", [fw.key] + [I.num.node(x) for t in i for x in t])
            ro = I.num.reader(obs)
            rm = I.num.reader(m) if mask else (lambda i: g.ONE)
            if err:
                L = I.num.total([(s.h,), (s.w,)], lambda i: g.mul(rm(i), g.fn("nat:err", [fw.key] + [I.num.node(x) for t in i for x in t])))
            else:
                def sq(i):
                    d = g.mul(rm(i[:2]), g.sub(F(i), ro(i)))
                    return g.mul(d, d)
                L = I.num.total([(s.h,), (s.w,), (s.C,)], sq)
            res["error is the masked squared difference"] = None if same(I, L, I.num.node(I.num.scalar(I.num.arr(e)) if isinstance(e, Arr) else e)) else "another quantity"
            if copies:
                for nm, v, lab in (("image", image, "image"), ("depth buffer", z, "z")):
                    a = I.num.arr(v)
                    bad = False
                    idx = tuple((g.sym("gen:%d" % k, True),) for k in range(a.ndim))
                    if not same(I, I.num.at(a, idx), g.fn("nat:" + lab, [fw.key] + [t[0] for t in idx])):
                        bad = True
                    res["returned " + nm] = "not the one of the forward pass" if bad else None
            for k in ("image", "z_buffer"):
                a = bw.snap[k]
                lab = {"image": "image", "z_buffer": "z"}[k]
                idx = tuple(tuple(g.sym("gen:%d:%d" % (i, j), True) for j in range(len(d))) for i, d in enumerate(a.dims))
                want = g.fn("nat:" + lab, [fw.key] + [x for t in idx for x in t])
                res["state handed to the backward pass: " + k] = None if same(I, I.num.at(a, idx), want) else "not what the forward pass produced"
            return res
        return f
    for err, mask, copies, clear in itertools.product((False, True), (False, True), (True, False), (True, False)):
        if not clear and (mask or not copies):
            continue
        name = "Scene2D.render_compare_and_backward%s%s%s%s" % (" error mode" if err else "", " with mask" if mask else "", "" if copies else " make_copies=False", "" if clear else " keeping gradients")
        for o in run(c, env, name, whole(err, mask, copies, clear)):
            for k, r in o.result.items():
                c.ob("compare-and-backward differentiates its error", "%s: %s" % (name, k), r is None, r or "", key="compare:%s:%s" % ("err" if err else "image", k))

    def separate(name, copies):
        def f(I):
            s = S(I)
            num = I.num
            sc = scene2d(s)
            entry2d(s, sc, name, copies)
            fw, bw = s.natives()
            err = "error" in name
            res = {}
            k, lab, dims = ("err_buffer_b", "err_b", [s.h, s.w]) if err else ("image_b", "image_b", [s.h, s.w, s.C])
            res["upstream gradient"] = arrays_equal(I, num.reshape(bw.snap[k], [-1]), num.reshape(s.param(lab, dims), [-1])) if k in bw.snap else "none handed over"
            if err:
                res["observation"] = arrays_equal(I, num.reshape(bw.snap["obs"], [-1]), num.reshape(s.param("obs", [s.h, s.w, s.C]), [-1])) if "obs" in bw.snap else "none handed over"
            for k, lab in [("image", "image"), ("z_buffer", "z")] + ([("err_buffer", "err")] if err else []):
                a = bw.snap.get(k)
                if a is None:
                    res["state: " + k] = "not handed over"
                    continue
                idx = tuple(tuple(g.sym("gen:%d:%d" % (i, j), True) for j in range(len(d))) for i, d in enumerate(a.dims))
                res["state: " + k] = None if same(I, num.at(a, idx), g.fn("nat:" + lab, [fw.key] + [x for t in idx for x in t])) else "not what the forward pass produced"
            for k in ("faces", "faces_uv", "ij", "depths", "uv", "shade", "colors", "edgeflags", "textured", "shaded", "texture", "background_image"):
                res["scene: " + k] = arrays_equal(I, bw.snap[k], fw.snap[k]) if k in bw.snap and k in fw.snap else "missing"
            return res
        return f
    for name, copies in itertools.product(("render_backward", "render_error_backward"), (True, False)):
        where = "Scene2D.%s make_copies=%s" % (name, copies)
        for o in run(c, env, where, separate(name, copies)):
            for k, r in o.result.items():
                c.ob("separate backward calls hand over the caller's gradient", "%s: %s" % (where, k), r is None, r or "", key="separate:%s:%s" % (name, k))
    return c.finish("Abstract interpretation of Scene2D.render_compare_and_backward and the separate backward entry points in both modes; the compiled renderer is an "
                    "uninterpreted function, the adjoint equation relates the error returned to the upstream gradient handed to the native backward pass.",
                    [("paths explored", 12)])


# ---------------------------------------------------------------- E01

class Watch:
    """memory handed in or handed out, with the number of writes it had at that time"""

    def __init__(self, I):
        self.I, self.items, self.attrs = I, [], []

    def memory(self, name, v):
        if isinstance(v, PtrVal):
            v = v.arr
        if isinstance(v, (tuple, list)):
            for k, x in enumerate(v):
                self.memory("%s[%d]" % (name, k), x)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.memory("%s[%s]" % (name, k), x)
        elif isinstance(v, Arr):
            b = v.buf.root()
            self.items.append((name, b, len(b.writes)))

    def fields(self, name, o, names):
        """values of the fields of an object must survive"""
        for n in names:
            v = self.I.getattr(o, n)
            keep = v
            if isinstance(v, Arr):
                keep = self.I.num.array("before:" + n, v.dims, self.I.num.reader(v), v.dtype)
                self.memory("%s.%s" % (name, n), v)
            self.attrs.append(("%s.%s" % (name, n), o, n, v, keep))

    def report(self):
        out = {}
        for name, b, n in self.items:
            w = b.writes[n:]
            out[name] = out.get(name) or ("written by %s" % ", ".join(sorted({"%s at %s" % x for x in w})) if w else None)
        for name, o, n, v, keep in self.attrs:
            now = self.I.getattr(o, n)
            if now is v and not isinstance(v, Arr):
                out[name + " (value)"] = None
            else:
                out[name + " (value)"] = arrays_equal(self.I, now, keep)
        return out


def e01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("no statement of a render, backward or query call, nor the native code it calls (which overwrites image, error buffer and upstream gradients of a backward "
           "pass and adds to the gradient arrays), writes to memory the caller passed in, holds through the mesh, camera or scene, or was given as a result")
    IN2 = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture", "background_image", "background_color", "height",
           "width", "nb_colors") + SETTINGS
    MESH = ("vertices", "faces", "uv", "faces_uv", "texture", "vertices_colors", "clockwise", "nb_vertices", "nb_faces")
    CAM = ("extrinsic", "intrinsic", "distortion", "height", "width")
    SC3 = ("light_directional", "light_ambient", "background_image", "background_color", "sigma", "perspective_correct", "integer_pixel_centers")

    def report(name, outs):
        for o in outs:
            for k, r in o.result.items():
                c.ob("caller's data is left unchanged", "%s: %s" % (name, k), r is None, r or "", key="effects:%s:%s" % (name, k))

    def s2(name, bg, copies):
        def f(I):
            s = S(I)
            w = Watch(I)
            sc = scene2d(s, bg)
            w.fields("scene", sc, IN2)
            sig, obs, mask = g.sym("sigma"), s.param("obs", [s.h, s.w, s.C]), s.param("mask", [s.h, s.w])
            ib, eb = s.param("image_b", [s.h, s.w, s.C]), s.param("err_b", [s.h, s.w])
            given_up = ("image_b", "err_buffer_b") if copies else ()      # make_copies=False allows the upstream gradient and the rendered buffers to be overwritten
            for n, v in (("obs", obs), ("mask", mask), ("image_b", ib), ("err_buffer_b", eb)):
                if n not in given_up:
                    w.memory(n, v)

            def result(n, v):
                if not copies:
                    w.memory(n, v)
            if name == "image":
                result("result", s.do(sc, "render", sig))
                s.do(sc, "render_backward", ib, **copies)
                result("second result", s.do(sc, "render", sig))
                s.do(sc, "render_backward", ib, **copies)
            elif name == "error":
                result("result", s.do(sc, "render_error", obs, sig))
                s.do(sc, "render_error_backward", eb, **copies)
            else:
                result("result", s.do(sc, "render_compare_and_backward", obs, sig, name == "compare error", mask=mask, **copies))
                s.do(sc, "render_compare_and_backward", obs, sig, name != "compare error", **copies)
            return w.report()
        return f
    for name in ("image", "error", "compare image", "compare error"):
        for bg in ("image", "color"):
            report("Scene2D %s, background %s" % (name, bg), run(c, env, "Scene2D " + name, s2(name, bg, {})))
        report("Scene2D %s, make_copies=False" % name, run(c, env, "Scene2D %s, make_copies=False" % name, s2(name, "image", {"make_copies": False})))

    def s3(mode, tex, light, bg, dist):
        def f(I):
            s = S(I)
            w = Watch(I)
            cam, mesh = s.camera(dist=dist), s.mesh(textured=tex)
            sc = scene3d(s, mesh, light, None if mode == "depth" else bg, sigma=0 if mode == "deferred" else g.sym("sigma"))
            if mode == "depth":
                s.do(sc, "set_background_color", s.param("bgc", [1]))
            w.fields("mesh", mesh, MESH)
            w.fields("camera", cam, CAM)
            w.fields("scene", sc, SC3)
            w.memory("vertex normals", s.get(mesh, "vertex_normals"))
            ib = s.param("image_b", [s.h, s.w, 1 if mode == "depth" else s.C])
            w.memory("upstream gradient", ib)
            if mode == "render":
                w.memory("result", s.do(sc, "render", cam, return_z_buffer=True))
                s.do(sc, "render_backward", ib)
                s.do(sc, "clear_gradients")
                w.memory("second result", s.do(sc, "render", cam))
            elif mode == "depth":
                w.memory("result", s.do(sc, "render_depth", cam, depth_scale=g.sym("dscale")))
                s.do(sc, "render_depth_backward", ib)
                w.memory("second result", s.do(sc, "render_depth", cam))
            else:
                w.memory("result", s.do(sc, "render_deferred", cam))
                w.memory("second result", s.do(sc, "render_deferred", cam))
            return w.report()
        return f
    for mode, tex, light, bg, dist in (("render", False, True, "color", False), ("render", True, True, "image", True), ("render", False, False, "image", False),
                                       ("depth", False, True, None, True), ("deferred", False, True, "color", False), ("deferred", True, True, "image", False)):
        name = "Scene3D %s%s%s" % (mode, ", textured" if tex else "", "" if light else ", no directional light")
        report(name, run(c, env, name, s3(mode, tex, light, bg, dist)))

    # --- the functions the calls above are made of, called directly
    def direct(which):
        def f(I):
            s = S(I)
            w = Watch(I)
            N = g.sym("N", True)
            if which == "camera":
                cam = s.camera(dist=True)
                w.fields("camera", cam, CAM)
                P, B, DB, d = s.param("P", [N, 3]), s.param("B", [N, 2]), s.param("DB", [N]), {}
                for n, v in (("points", P), ("gradient", B), ("depth gradient", DB)):
                    w.memory(n, v)
                w.memory("projection", s.do(cam, "project_points", P, store_backward=d))
                w.memory("first gradient", s.do(cam, "project_points_backward", B, d, depths_b=DB))
                s.do(cam, "project_points_backward", B, d, depths_b=DB)
                s.do(cam, "project_points_backward", B, d)
            elif which == "normals":
                mesh = s.mesh()
                w.fields("mesh", mesh, MESH)
                adj = s.get(mesh, "adjacencies")
                FB, VB, v = s.param("FB", [s.F, 3]), s.param("VB", [s.V, 3]), s.param("v2", [s.V, 3])
                for n, x in (("face normal gradient", FB), ("vertex normal gradient", VB), ("vertices argument", v)):
                    w.memory(n, x)
                fn = s.do(adj, "compute_face_normals", v)
                w.memory("face normals", fn)
                w.memory("vertex normals", s.do(adj, "compute_vertex_normals", fn))
                s.do(adj, "compute_vertex_normals_backward", VB)
                s.do(adj, "compute_face_normals_backward", FB)
                s.get(mesh, "vertex_normals")
                s.do(mesh, "compute_vertex_normals_backward", VB)
                s.do(mesh, "edge_on_silhouette", s.param("p2d", [s.V, 2]))
            elif which == "energy":
                mesh = s.mesh()
                v0, v1 = s.param("v0", [s.V, 3]), s.param("v1", [s.V, 3])
                w.memory("reference", v0)
                w.memory("vertices", v1)
                en = s.new("LaplacianRigidEnergy", mesh, v0, g.sym("cregu"), mod="deodr.laplacian_rigid_energy")
                w.memory("result", s.do(en, "evaluate", v1))
                s.do(en, "evaluate", v1)
            else:
                q, qq, v, vb, ax = s.param("q", [4]), s.param("qq", [2, 4]), s.param("v", [s.V, 3]), s.param("vb", [s.V, 3]), s.param("ub", [s.V, 3])
                for n, x in (("quaternion", q), ("quaternions", qq), ("vectors", v), ("gradient", vb), ("other gradient", ax)):
                    w.memory(n, x)
                call = lambda n, *a: I.call(s.cls(n, "deodr.tools"), list(a), {})
                call("qrot", q, v)
                call("qrot", qq, v)
                call("qrot_backward", q, v, vb)
                call("normalize", v)
                call("normalize_backward", v, vb)
                call("cross_backward", v, ax, vb)
            return w.report()
        return f
    for which in ("camera", "normals", "energy", "tools"):
        report("direct calls, " + which, run(c, env, "direct calls, " + which, direct(which), opaque_sparse=which != "energy"))
    return c.finish(EXPL["E01"], [("paths explored", 12)])


# ---------------------------------------------------------------- H01

def grads2d(s, sc):
    return {k: s.get(sc, k) for k in ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")}


def freeze(I, d):
    """contents of arrays now"""
    if isinstance(d, dict):
        return {k: freeze(I, v) for k, v in d.items()}
    if isinstance(d, (tuple, list)):
        return type(d)(freeze(I, v) for v in d)
    if isinstance(d, Arr):
        return I.num.array("frozen", d.dims, I.num.reader(d), d.dtype)
    return d


def h01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("after any of the listed histories of render and backward calls on the same or related objects, a forward call followed by its backward call returns the "
           "same image and gradients as on a freshly built object (compared element by element with the native renderer uninterpreted)")
    c.rule("the compare-and-backward call clears every gradient array it accumulates to")

    jobs = []

    def job(where, scen, key):
        def f():
            for o in run(c, env, where, scen):
                for k, r in o.result.items():
                    c.ob("history does not matter", "%s: %s" % (where, k), r is None, r or "", key="%s:%s" % (key, k))
        f.cost = 1 + ("3D" in where) + ("before the" in where) + ("sharing" in where)
        jobs.append(f)

    # --- Scene2D
    def other(s, sc, h):
        I = s.I
        sig2, obs2 = g.sym("sigma2"), s.param("obs2", [s.h, s.w, s.C])
        ib2, eb2 = s.param("ib2", [s.h, s.w, s.C]), s.param("eb2", [s.h, s.w])
        if h == "render":
            s.do(sc, "render", sig2)
        elif h == "error":
            s.do(sc, "render_error", obs2, sig2)
        elif h == "render+backward":
            s.do(sc, "render", sig2)
            s.do(sc, "render_backward", ib2)
        elif h == "error+backward":
            s.do(sc, "render_error", obs2, sig2)
            s.do(sc, "render_error_backward", eb2)
        elif h == "compare":
            s.do(sc, "render_compare_and_backward", obs2, sig2)
        elif h == "compare error":
            s.do(sc, "render_compare_and_backward", obs2, sig2, True)
        elif h == "compare no copies":
            s.do(sc, "render_compare_and_backward", obs2, sig2, make_copies=False)

    def final(s, sc, name):
        out = freeze(s.I, entry2d(s, sc, name))
        return out, freeze(s.I, grads2d(s, sc)), freeze(s.I, s.I.num.term if False else None)

    def scen2(h, name):
        def f(I):
            s = S(I)
            fresh = scene2d(s)
            want = final(s, fresh, name)
            sc = scene2d(s)
            other(s, sc, h)
            if not name.startswith("render_compare"):
                s.do(sc, "clear_gradients")
            have = final(s, sc, name)
            res = {"result": arrays_equal(I, have[0], want[0])}
            for k in want[1]:
                res[k] = arrays_equal(I, have[1][k], want[1][k])
            return res
        return f
    hist = ("render", "error", "render+backward", "error+backward", "compare", "compare error", "compare no copies")
    for h in hist:
        for name in ENTRY2D[2:]:
            job("Scene2D: %s then %s" % (h, name), scen2(h, name), "history2d:%s:%s" % (h, name))

    def twice(name):
        """repeating the backward call (after clearing) gives the same gradients; another object in between does not matter"""
        def f(I):
            s = S(I)
            sc = scene2d(s)
            ib, eb = s.param("image_b", [s.h, s.w, s.C]), s.param("err_b", [s.h, s.w])
            if name == "image":
                s.do(sc, "render", g.sym("sigma"))
                call = lambda: s.do(sc, "render_backward", ib)
            else:
                s.do(sc, "render_error", s.param("obs", [s.h, s.w, s.C]), g.sym("sigma"))
                call = lambda: s.do(sc, "render_error_backward", eb)
            call()
            first = freeze(I, grads2d(s, sc))
            sc2 = scene2d(s, tag="2")
            for n in ("render", "render_error_backward", "render_compare_and_backward"):
                entry2d(s, sc2, n, tag="2")
            s.do(sc, "clear_gradients")
            call()
            second = freeze(I, grads2d(s, sc))
            return {k: arrays_equal(I, second[k], first[k]) for k in first}
        return f
    for name in ("image", "error"):
        job("Scene2D: backward repeated, other scene in between, " + name, twice(name), "repeat2d:" + name)

    # --- Scene3D
    def out3(s, sc, mesh, mode, tag=""):
        cam = s.cams[0]
        if mode == "render":
            img = freeze(s.I, s.do(sc, "render", cam, return_z_buffer=True))
            s.do(sc, "render_backward", s.param("image_b", [s.h, s.w, s.C]))
        else:
            img = freeze(s.I, s.do(sc, "render_depth", cam, depth_scale=g.sym("dscale")))
            s.do(sc, "render_depth_backward", s.param("image_b", [s.h, s.w, s.nd]))
        r = {"image": img, "vertices": freeze(s.I, s.get(mesh, "_vertices_b"))}
        if mode == "render":
            if s.light:
                r["light"] = freeze(s.I, s.get(sc, "light_directional_b"))
            r["ambient"] = freeze(s.I, s.get(sc, "light_ambient_b"))
            if not s.tex:
                r["colours"] = freeze(s.I, s.get(mesh, "vertices_colors_b"))
            else:
                r["texture"] = freeze(s.I, s.get(sc, "scene_2d", "texture_b"))
        return r

    def before3(s, sc, mesh, h, mode):
        I = s.I
        cam2 = s.cams[1]
        C = s.nd if mode == "depth" else s.C
        ib2 = s.param("ib2", [s.h2, s.w2, C])
        old = s.get(sc, "sigma")
        if h == "other view":
            s.do(sc, "render" if mode == "render" else "render_depth", cam2)
        elif h == "other view+backward":
            if mode == "render":
                s.do(sc, "render", cam2)
                s.do(sc, "render_backward", ib2)
            else:
                s.do(sc, "render_depth", cam2, depth_scale=g.sym("dscale2"))
                s.do(sc, "render_depth_backward", ib2)
        elif h == "deferred":
            I.setattr(sc, "sigma", 0)
            s.do(sc, "render_deferred", cam2)
            I.setattr(sc, "sigma", old)
        elif h == "other light":
            s.do(sc, "set_light", s.param("ld2", [3]), g.sym("la2"))
            s.do(sc, "render", cam2)
            s.do(sc, "render_backward", ib2)
            s.do(sc, "set_light", s.param("ld", [3]) if s.light else None, g.sym("la"))
        elif h == "other vertices":
            v = s.get(mesh, "vertices")
            s.do(mesh, "set_vertices", s.param("vertices2", [s.V, 3]))
            s.do(sc, "render" if mode == "render" else "render_depth", cam2)
            s.do(sc, "render_backward" if mode == "render" else "render_depth_backward", ib2)
            s.do(mesh, "set_vertices", v)
        elif h == "other mode":
            bg = s.get(sc, "background_color")
            I.setattr(sc, "background_color", s.param("bg2", [1 if mode == "render" else s.C]))
            if mode == "render":
                s.do(sc, "render_depth", cam2)
                s.do(sc, "render_depth_backward", s.param("ib2d", [s.h2, s.w2, 1]))
            else:
                s.do(sc, "render", cam2)
                s.do(sc, "render_backward", s.param("ib2c", [s.h2, s.w2, s.C]))
            I.setattr(sc, "background_color", bg)
        elif h == "scene sharing the mesh":
            sc2 = scene3d(s, mesh, True, None, sigma=g.sym("sigma3"))
            s.do(sc2, "set_background_color", s.param("bg3", [s.C]))
            s.do(sc2, "set_light", s.param("ld2", [3]), g.sym("la2"))
            s.do(sc2, "render", cam2)
            s.do(sc2, "render_backward", s.param("ib2c", [s.h2, s.w2, s.C]))

    def setup3(s, mode, tex, light, tag=""):
        g = s.g
        mesh = s.mesh(textured=tex)
        sc = scene3d(s, mesh, light, None, sigma=g.sym("sigma"))
        s.do(sc, "set_background_color", s.param("bgc", [s.nd if mode == "depth" else s.C]))
        return sc, mesh

    def base3(I, mode, tex, light):
        s = S(I)
        s.tex, s.light, s.nd = tex, light, 1
        s.h2, s.w2 = g.sym("h2", True), g.sym("w2", True)
        for x in (s.h2, s.w2):
            I.assume(g.b_not(g.b_lt0(g.sub(x, g.ONE), True)))
        s.cams = [s.camera(dist=True), s.new("Camera", s.param("ext2", [3, 4]), s.param("intr2", [3, 3]), s.h2, s.w2, checks=False)]
        return s

    def compare(I, have, want):
        return {k: arrays_equal(I, have[k], want[k]) for k in want}

    def scen3(h, mode, tex, light):
        def f(I):
            s = base3(I, mode, tex, light)
            fresh, fm = setup3(s, mode, tex, light)
            want = out3(s, fresh, fm, mode)
            sc, mesh = setup3(s, mode, tex, light)
            before3(s, sc, mesh, h, mode)
            return compare(I, out3(s, sc, mesh, mode), want)
        return f

    def between(mode, tex, light, what):
        """another scene is rendered between the forward and the backward call"""
        def f(I):
            s = base3(I, mode, tex, light)
            fresh, fm = setup3(s, mode, tex, light)
            want = out3(s, fresh, fm, mode)
            sc, mesh = setup3(s, mode, tex, light)
            real = s.do

            def do(o, name, *a, **k):
                if o is sc and name.endswith("_backward"):
                    s.do = real
                    if what == "unrelated scene":
                        m2 = s.mesh("2")
                        sc2 = scene3d(s, m2, True, None, sigma=g.sym("sigma3"))
                        s.do(sc2, "set_background_color", s.param("bg3", [s.C]))
                        s.do(sc2, "render", s.cams[1])
                        s.do(sc2, "render_backward", s.param("ib2c", [s.h2, s.w2, s.C]))
                    else:
                        before3(s, sc, mesh, what, mode)
                return real(o, name, *a, **k)
            s.do = do
            return compare(I, out3(s, sc, mesh, mode), want)
        return f
    hist3 = ("other view", "other view+backward", "deferred", "other light", "other vertices", "other mode", "scene sharing the mesh")
    for mode, tex, light in (("render", False, True), ("render", True, True), ("render", False, False), ("depth", False, True)):
        for h in hist3:
            if h == "other light" and mode == "depth" or h == "other mode" and tex:
                continue
            job("Scene3D %s%s%s after: %s" % (mode, ", textured" if tex else "", "" if light else ", no directional light", h),
                scen3(h, mode, tex, light), "history3d:%s:%s" % (h, mode))
        if light:
            for what in ("unrelated scene", "scene sharing the mesh"):
                job("Scene3D %s%s, %s rendered before the backward call" % (mode, ", textured" if tex else "", what),
                    between(mode, tex, light, what), "between3d:%s:%s" % (what, mode))
    c.parallel(sorted(jobs, key=lambda f: -f.cost))
    return c.finish(EXPL["H01"], [("paths explored", 40)])


EXPL = {
    "E01": "Effect analysis: every write of the interpreted Python statements and every in-place update of the native passes is attributed to the memory it reaches "
           "(through views and aliases); memory of the caller or handed to the caller must not be among it.",
    "H01": "Relational abstract interpretation: the same forward and backward calls after a history of other calls and on a fresh object, compared element by element.",
}
