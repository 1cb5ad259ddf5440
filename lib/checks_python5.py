"""Properties of the PyTorch bindings."""
import ast
import itertools
from gvn import AnalysisError, show
from pynum import Arr, Opq, SymBool
from pyinterp import Inst, Cls, Ext, PtrVal, Null
import pymodels
from pyenv import PyEnv, S, IN, FLAGS, arrays_equal
from checks_python import run, same, eqval

TORCH = "deodr.pytorch.differentiable_renderer_pytorch"
TMESH = "deodr.pytorch.triangulated_mesh_pytorch"
TRIGID = "deodr.pytorch.laplacian_rigid_energy_pytorch"
LEAVES = ("vertices", "vcol", "ld", "la")


class Call:
    """one call of an autograd function"""

    def __init__(self, cls, ctx, args, out, native):
        self.cls, self.ctx, self.args, self.out, self.native = cls, ctx, args, out, native


def autograd(I):
    """torch.autograd.Function: apply() runs forward with a new context, outside the recorded graph; detach(), numpy() and
    torch.tensor() cut the recorded graph: their result is stop(x)"""
    I.calls = []
    I.inside = 0
    g, num = I.g, I.num

    def context():
        k = Cls(ast.parse("class Context:\n pass").body[0], None, [Ext("torch.autograd.function.FunctionCtx")])
        o = Inst(k)
        o.attrs["saved_tensors"] = ()
        o.attrs["saved_for_forward"] = ()
        return o

    def apply(I, cls, args, kw):
        if kw:
            raise I.err("autograd function called with keywords")
        ctx = context()
        before = len(I.events)
        I.inside += 1
        try:
            f, _ = cls.find("forward")
            setup, _ = cls.find("setup_context")
            if setup is not None:
                out = I.call(f, list(args), {})
                I.call(setup, [ctx, tuple(args), out], {})
            else:
                out = I.call(f, [ctx] + list(args), {})
        finally:
            I.inside -= 1
        n = [e[1] for e in I.events[before:] if e[0] == "native"]
        I.calls.append(Call(cls, ctx, list(args), out, n))
        return out

    def save(I, o, args, kw):
        o.attrs["saved_tensors"] = tuple(args)

    def nothing(I, o, args, kw):
        return None

    def stop(x):
        r = num.reader(x)

        def content(idx):
            v = num.node(r(idx))
            return v if v.op == "const" or v.op == "bool" else g.fn("stop", (v,))
        a = num.array("stop", x.dims, num.memo(content), x.dtype)
        a.wrapper, a.sparse = x.wrapper, x.sparse
        return a

    def cut(I, a, args, kw, how):
        if I.inside or not I.cutting or a.dtype[0] != "f":
            return NotImplemented
        r = stop(a)
        r.wrapper = "numpy" if how == "numpy" else "torch"
        return r
    I.cutting = True
    I.grad_cut = cut
    I.ext_hooks["classmethod:apply"] = apply
    I.ext_hooks["method:save_for_backward"] = save
    for n in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
        I.ext_hooks["method:" + n] = nothing


def uncut(g, n, cache):
    """the term without its graph cuts"""
    r = cache.get(n.nid)
    if r is None:
        r = n
        while r.op == "fn" and r.val == "stop":
            r = r.args[0]
        if any(m.op == "fn" and m.val == "stop" for m in g.walk([r])):
            m = {k: uncut(g, k.args[0], cache) for k in g.walk([r]) if k.op == "fn" and k.val == "stop"}
            r = g.subst(r, m)
        cache[n.nid] = r
    return r


def plain(I, a, cache):
    """the array without graph cuts"""
    g, num = I.g, I.num
    if not isinstance(a, Arr):
        return uncut(g, num.node(a), cache) if a is not None and not isinstance(a, (str, Null, bool, SymBool)) else a
    r = num.reader(a)
    return num.array("plain", a.dims, num.memo(lambda idx: uncut(g, num.node(r(idx)), cache)), a.dtype)


def tscene(s, tag="", colors=True, depth=False):
    """a torch scene (camera, mesh with tensor vertices and colours, lights, background) whose settings are symbolic"""
    I, g = s.I, s.g
    C = s.C
    cam = s.new("CameraPytorch", s.param("ext" + tag, [3, 4]), s.param("intr" + tag, [3, 3]), s.h, s.w, mod=TORCH)
    mesh = s.new("ColoredTriMeshPytorch", s.param("faces" + tag, [s.F, 3], "u4"), s.param("vertices0" + tag, [s.V, 3]), mod=TMESH,
                 clockwise=s.flag("clockwise" + tag), colors=s.param("vcol0" + tag, [s.V, C]))
    s.do(mesh, "set_vertices", tensor(s, "vertices" + tag, [s.V, 3]))
    s.do(mesh, "set_vertices_colors", tensor(s, "vcol" + tag, [s.V, C]))
    sc = s.new("Scene3DPytorch", mod=TORCH)
    settings(s, sc, tag)
    s.do(sc, "set_mesh", mesh)
    s.do(sc, "set_light", tensor(s, "ld" + tag, [3]), g.sym("la" + tag))
    s.do(sc, "set_background_color", s.param("bgc" + tag, [1 if depth else C]))
    return cam, mesh, sc


def settings(s, sc, tag):
    s.I.setattr(sc, "sigma", s.g.sym("sigma" + tag))
    s.I.setattr(sc, "perspective_correct", s.flag("persp" + tag))
    s.I.setattr(sc, "integer_pixel_centers", s.flag("ipc" + tag))


def tensor(s, label, dims):
    a = s.param(label, dims)
    r = s.num.view(a, a.dims, list(a.amap))
    r.wrapper = "torch"
    return r


def render(s, cam, sc, mode, tag=""):
    if mode == "depth":
        return s.do(sc, "render_depth", cam, depth_scale=s.g.sym("dscale" + tag), backface_culling=s.flag("cull" + tag))
    return s.do(sc, "render", cam, backface_culling=s.flag("cull" + tag))


def t01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("every field handed to the compiled renderer by Scene3DPytorch equals the field Scene3D hands over for the same camera, mesh, lights and settings")
    c.rule("the tensors given to the autograd function depend on every parameter without a graph cut: their derivative with detach()/numpy()/torch.tensor() results "
           "held constant is their full derivative")
    c.rule("backward of a forward call hands to the compiled renderer the inputs, settings, image and depths of that forward call and the incoming gradient, whatever was "
           "rendered in between; returns the accumulated gradient of each tensor input, None for the others; leaves incoming gradient, outputs and saved state as they were")
    c.rule("the rigidity energy and gradient of the binding equal those of the numpy class; the energy depends on the vertices without a graph cut when they require gradients")

    def forward(mode):
        def f(I):
            s = S(I)
            num = I.num
            cam, mesh, sc = tscene(s, depth=mode == "depth")
            image = render(s, cam, sc, mode)
            if len(I.calls) != 1 or len(I.calls[0].native) != 1:
                return {"one native call": "%d autograd calls" % len(I.calls)}
            call = I.calls[0]
            a = call.native[0]
            # numpy reference
            cam2 = s.new("Camera", s.param("ext", [3, 4]), s.param("intr", [3, 3]), s.h, s.w, checks=False)
            mesh2 = s.new("ColoredTriMesh", s.param("faces", [s.F, 3], "u4"), s.param("vertices", [s.V, 3]), clockwise=s.flag("clockwise"), colors=s.param("vcol", [s.V, s.C]))
            ref = s.new("Scene3D")
            settings(s, ref, "")
            s.do(ref, "set_mesh", mesh2)
            s.do(ref, "set_light", s.param("ld", [3]), g.sym("la"))
            s.do(ref, "set_background_color", s.param("bgc", [1 if mode == "depth" else s.C]))
            render(s, cam2, ref, mode)
            b = s.natives()[-1]
            res, cache = {}, {}
            for k in IN:
                x, y = a.snap.get(k), b.snap.get(k)
                res[k] = None if x is None and y is None else "handed over by one of the two only" if x is None or y is None else \
                    arrays_equal(I, num.reshape(plain(I, x, cache), [-1]), num.reshape(y, [-1]))
            for k in FLAGS + ("sigma", "antialiase_error"):
                res[k] = eqval(I, a.value(k), b.value(k))
            # graph cuts
            ncut = 0
            for n, t in enumerate(call.args):
                if not isinstance(t, Arr):
                    continue
                for leaf in LEAVES:
                    seed = s.seed(leaf) if leaf != "la" else (lambda m: g.sym("H:la") if m.op == "sym" and m.val == "la" else None)
                    r = num.reader(t)
                    axes = [[(q,) for q in range(d[0])] if isinstance(d[0], int) else [(g.sym("gen:%d" % k, True),)] for k, d in enumerate(t.dims)]
                    for i in itertools.product(*axes):
                        x = num.node(r(i))
                        held = g.tangent(x, lambda m: g.ZERO if m.op == "fn" and m.val == "stop" else seed(m), {})
                        full = g.tangent(uncut(g, x, cache), seed, {})
                        ncut += 1
                        if not same(I, uncut(g, held, cache), full):
                            res["gradient of tensor %d with respect to %s" % (n, leaf)] = "part of the graph is cut (detach, numpy or tensor)"
            c.count("tensor entries differentiated", ncut)
            want = num.array("ref", call.out.dims, num.memo(lambda i: g.fn("nat:image", [a.key] + [num.node(x) for t in i for x in t])))
            res["returned image"] = arrays_equal(I, image, want) if isinstance(image, Arr) and image.wrapper == "torch" else "not a tensor"
            res["returned image is the output of the autograd function"] = None if isinstance(image, Arr) and image.buf is call.out.buf else "it is a copy without history"
            return res
        return f

    def between(s, I, kind, first):
        cam, mesh, sc = first
        if kind == "same scene":
            s.do(mesh, "set_vertices", tensor(s, "vertices:1", [s.V, 3]))
            s.do(mesh, "set_vertices_colors", tensor(s, "vcol:1", [s.V, s.C]))
            s.do(sc, "set_light", tensor(s, "ld:1", [3]), s.g.sym("la:1"))
            settings(s, sc, ":1")
            render(s, cam, sc, "color", ":1")
        elif kind == "same scene, backward":
            between(s, I, "same scene", first)
            k = I.calls[-1]
            back(s, I, k, tensor(s, "grad:1", [s.h, s.w, s.C]))
        elif kind == "backward":
            back(s, I, I.calls[0], tensor(s, "grad:1", [s.h, s.w, s.C]))
        elif kind == "autograd function":
            k = I.calls[0]
            args = [tensor(s, "x%d:1" % n, list(map(I.num.dimval, x.dims))) if isinstance(x, Arr) and x.dtype[0] == "f" else x for n, x in enumerate(k.args)]
            I.ext_hooks["classmethod:apply"](I, k.cls, args, {})
        elif kind == "other scene":
            cam2, mesh2, sc2 = tscene(s, ":1")
            render(s, cam2, sc2, "color", ":1")
            back(s, I, I.calls[-1], tensor(s, "grad:1", [s.h, s.w, s.C]))
        elif kind == "mesh":
            _, mesh2, _ = tscene(s, ":1")
            s.do(sc, "set_mesh", mesh2)
            render(s, cam, sc, "color", ":1")

    def back(s, I, call, grad):
        f, _ = call.cls.find("backward")
        I.inside += 1
        try:
            return I.call(f, [call.ctx, grad], {})
        finally:
            I.inside -= 1

    def backward(kind, mode="color"):
        def f(I):
            s = S(I)
            num = I.num
            I.cutting = False
            first = tscene(s, depth=mode == "depth")
            cam, mesh, sc = first
            render(s, cam, sc, mode)
            call = I.calls[0]
            fw = call.native[0]
            nb = 1 if mode == "depth" else s.C
            out = num.copy(call.out)
            rd = num.reader(out)
            between(s, I, kind, first)
            grad = tensor(s, "grad", [s.h, s.w, nb])
            m = len(s.natives())
            r = back(s, I, call, grad)
            ns = s.natives()[m:]
            if len(ns) != 1 or not ns[0].back:
                return {"one native backward call": "%d native calls" % len(ns)}
            bw = ns[0]
            res = {}
            for k in IN:
                x, y = bw.snap.get(k), fw.snap.get(k)
                res["input " + k] = None if x is None and y is None else "present in one of the two only" if x is None or y is None else \
                    arrays_equal(I, num.reshape(x, [-1]), num.reshape(y, [-1]))
            for k in FLAGS + ("sigma", "antialiase_error"):
                res["input " + k] = eqval(I, bw.value(k), fw.value(k))
            res["image"] = arrays_equal(I, bw.snap["image"], out)
            zf = num.array("z", fw.p["z_buffer"].arr.dims, num.memo(lambda i: g.fn("nat:z", [fw.key] + [num.node(x) for t in i for x in t])))
            res["depth buffer"] = arrays_equal(I, bw.snap["z_buffer"], zf)
            res["incoming gradient"] = arrays_equal(I, bw.snap["image_b"], num.array("grad", [s.h, s.w, nb], num.reader(s.param("grad", [s.h, s.w, nb]))))
            got = grad.buf
            res["incoming gradient is copied"] = None if bw.p["image_b"].arr.buf is not got else \
                "the compiled code gets the caller's gradient itself: it overwrites it, and a gradient that is not contiguous is refused"
            res["output image is not shared with the buffer that backward overwrites"] = None if bw.p["image"].arr.buf is not call.out.buf else "shared"
            res["output image"] = arrays_equal(I, call.out, out)
            if not isinstance(r, (tuple, list)):
                r = (r,)
            if len(r) != len(call.args):
                res["returned gradients"] = "%d for %d inputs" % (len(r), len(call.args))
                return res
            found = []
            for n, (t, b) in enumerate(zip(call.args, r)):
                if not isinstance(t, Arr) or t.dtype[0] != "f":
                    res["gradient of input %d" % n] = None if b is None else "a gradient is returned for an input that is not a real tensor"
                    continue
                key = [k for k in ("ij", "colors", "shade", "uv", "texture") if fw.snap.get(k) is not None and k not in found and
                       arrays_equal(I, num.reshape(t, [-1]), num.reshape(fw.snap[k], [-1])) is None]
                if not key:
                    res["gradient of input %d" % n] = None if b is None else "the input is not one of the differentiable inputs of the renderer"
                    continue
                found.append(key[0])
                if b is None:
                    res["gradient of input %d" % n] = "no gradient is returned for %s" % key[0]
                    continue
                want = num.array("want", bw.arr(key[0] + "_b").dims, num.memo(lambda i, k=key[0]: g.fn("NB:" + k, [bw.key] + [num.node(x) for q in i for x in q])))
                res["gradient of input %d" % n] = arrays_equal(I, num.reshape(num.arr(b), [-1]), num.reshape(want, [-1])) or \
                    (None if num.arr(b).ndim == t.ndim and all(num.same_dim(p, q) for p, q in zip(num.arr(b).dims, t.dims)) else "of another shape than the input")
            res["differentiable inputs"] = None if {"ij", "colors"} <= set(found) else "only %s reach the function" % found
            # a second backward of the same call
            r2 = back(s, I, call, grad)
            bw2 = s.natives()[-1]
            res["repeated backward"] = None if bw2.key is bw.key else next(
                ("%s differs" % k for k in list(IN) + ["image", "z_buffer", "image_b"] if bw2.snap.get(k) is not None and arrays_equal(I, bw2.snap[k], bw.snap[k])), None)
            return res
        return f

    def rigid(I):
        s = S(I)
        num = I.num
        faces, v = s.param("faces", [s.F, 3], "u4"), s.param("vertices", [s.V, 3])
        ref = s.param("ref", [s.V, 3])
        mesh = s.new("ColoredTriMeshPytorch", faces, ref, mod=TMESH, colors=s.param("vcol", [s.V, s.C]))
        mesh2 = s.new("ColoredTriMesh", faces, ref, colors=s.param("vcol", [s.V, s.C]))
        a = s.new("LaplacianRigidEnergyPytorch", mesh, ref, g.sym("cregu"), mod=TRIGID)
        b = s.new("LaplacianRigidEnergy", mesh2, ref, g.sym("cregu"), mod="deodr.laplacian_rigid_energy")
        t = tensor(s, "vertices", [s.V, 3])
        ra, rb = s.do(a, "evaluate", t), s.do(b, "evaluate", v)
        res, cache = {}, {}
        req = g.tobdd(num.node(s.get(t, "requires_grad"))) if not isinstance(s.get(t, "requires_grad"), SymBool) else s.get(t, "requires_grad").b
        tag = " (tensor with gradient)" if g.implies(I.pc, req) else ""
        e = num.node(num.scalar(ra[0]) if isinstance(ra[0], Arr) else ra[0])
        eb = num.node(num.scalar(rb[0]) if isinstance(rb[0], Arr) else rb[0])
        res["energy" + tag] = None if same(I, uncut(g, e, cache), eb) else "differs: %s" % show(e)[:160]
        res["gradient" + tag] = arrays_equal(I, plain(I, num.arr(ra[1]), cache), num.arr(rb[1]))
        if tag:
            seed = s.seed("vertices")
            held = g.tangent(e, lambda m: g.ZERO if m.op == "fn" and m.val == "stop" else seed(m), {})
            full = g.tangent(uncut(g, e, cache), seed, {})
            res["graph of the energy"] = None if same(I, uncut(g, held, cache), full) else "part of the graph is cut (detach, numpy or tensor)"
        return res
    jobs = []

    def job(where, scen, key, **kw):
        def f():
            for o in run(c, env, where, scen, setup=autograd, **kw):
                for k, r in o.result.items():
                    c.ob("binding agrees with its forward call", "%s: %s" % (where, k), r is None, r or "", key="%s:%s" % (key, k))
                for e in o.I.events:
                    if e[0] == "cross-dim":
                        c.ob("binding agrees with its forward call", "%s: cross product" % where, False, "torch.cross without dim takes the first dimension of size 3 (%s)" % (e[2],), key="cross")
        jobs.append(f)
    for mode in ("color", "depth"):
        job("forward, %s" % mode, forward(mode), "forward:" + mode)
    for kind in ("nothing", "same scene", "same scene, backward", "backward", "autograd function", "other scene", "mesh"):
        job("backward, in between: %s" % kind, backward(kind), "backward:" + kind)
    job("depth backward", backward("nothing", "depth"), "backward:depth")
    job("rigidity energy", rigid, "rigid")
    c.parallel(jobs)
    return c.finish(EXPL["T01"], [("paths explored", 10), ("Python functions analysed", 12), ("tensor entries differentiated", 8)])


EXPL = {
    "T01": "Relational abstract interpretation of the PyTorch bindings with torch's autograd function protocol modelled (contexts, interleaved forward and backward calls): "
           "fields handed to the compiled renderer compared with those of the numpy scene and of the forward call they belong to, as terms.",
}
