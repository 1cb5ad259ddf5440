"""Properties of the fitters, of derived mesh data, of cameras and of the framework bindings, decided on abstract runs."""
import ast
import itertools
from pyfields import Effects, carried, classes, shares
from gvn import AnalysisError, show
from pynum import Arr, Opq
from pyinterp import Inst, PtrVal
from pyenv import PyEnv, S, arrays_equal, rotation_model
from checks_python import run, same, under
from checks_python2 import freeze
import gvn

FIT = "deodr.mesh_fitter"
INF = float("inf")


# ---------------------------------------------------------------- fitters

class Fitter:
    """a fitter of the repository built on symbolic data"""
    CLS = {"depth": "MeshDepthFitter", "rgb": "MeshRGBFitterWithPose", "multi": "MeshRGBFitterWithPoseMultiFrame"}

    def __init__(self, s, kind, **kw):
        self.s, self.kind = s, kind
        g = s.g
        n = [2] if kind == "multi" else []
        args = [s.param("v", [s.V, 3]), s.param("faces", [s.F, 3], "u4"), s.param("euler", n + [3]), s.param("tr", n + [3])]
        if kind != "depth":
            args += [s.param("col", [3]), s.param("ld", [3]), g.sym("la")]
        self.f = s.new(self.CLS[kind], *args, mod=FIT, cregu=g.sym("cregu"), **kw)
        if kind == "depth":
            # a positive clipping depth
            s.I.assume(g.b_not(g.b_lt0(g.sym("maxd"), False)))
            s.do(self.f, "set_max_depth", g.sym("maxd"))
            s.do(self.f, "set_depth_scale", g.sym("dscale"))
        else:
            s.do(self.f, "set_background_color", s.param("bg", [3]))
        self.image()

    def image(self):
        s, g = self.s, self.s.g
        if self.kind == "depth":
            s.do(self.f, "set_image", s.param("obs", [s.h, s.w]), focal=g.sym("focal"))
        elif self.kind == "rgb":
            s.do(self.f, "set_image", s.param("obs", [s.h, s.w, 3]), focal=g.sym("focal"))
        else:
            s.do(self.f, "set_images", [s.param("obs0", [s.h, s.w, 3]), s.param("obs1", [s.h, s.w, 3])], focal=g.sym("focal"))

    def get(self, *n):
        return self.s.get(self.f, *n)

    def set(self, n, v):
        if n not in self.f.attrs:
            raise AnalysisError("the fitter has no field %s" % n)
        self.s.I.setattr(self.f, n, v)

    def step(self):
        return self.s.do(self.f, "step")


STATE = {"vertices": ("X", lambda s: [s.V, 3]), "transform_translation": ("TT", lambda s: [3]), "transform_quaternion": ("Q", lambda s: [4])}
STATE_RGB = {"light_directional": ("LD", lambda s: [3]), "mesh_color": ("MC", lambda s: [3])}


def ratio(I, a, b):
    """the constant k with a = k b (on this path), or None"""
    g = I.g
    u, v = under(I, a), under(I, b)
    import numpy as np
    nz = np.nonzero(v.lanes)[0]
    if not len(nz):
        return None
    i = int(nz[0])
    r = int(u.lanes[i]) * pow(int(v.lanes[i]), gvn.P - 2, gvn.P) % gvn.P
    if r == 0:
        return None
    # rational reconstruction with a small numerator and a denominator up to 10^7 (step factors are like 0.00005)
    from fractions import Fraction
    for d in (1, 2, 4, 5, 10, 20, 50, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7):
        for sgn in (1, -1):
            m = r * d * sgn % gvn.P
            if m <= 5000:
                k = Fraction(sgn * m, d)
                return k if g.equal(u, g.mul(g.const(k), v)) else None
    return None


def energy_node(I, e):
    return I.num.node(I.num.scalar(I.num.arr(e)) if isinstance(e, Arr) else e)


def rename_native(I, e):
    return e


def g08(c):
    env = PyEnv(c)
    g = env.g
    g.ties = False
    c.rule("one fitting step from an arbitrary state (no inertia, no damping, no step clamp): the change of vertices, translation, quaternion velocity, lights and colour, "
           "contracted with an arbitrary direction, is a negative constant times the derivative in that direction of the energy the step returns")
    c.rule("the upstream gradient handed to the compiled renderer is the derivative of that energy with respect to the rendered image; the backward pass gets the inputs of its forward pass")
    c.rule("LaplacianRigidEnergy.evaluate returns an energy and its derivative")
    c.rule("qrot_backward, normalize_backward and cross_backward are the transposed derivatives of qrot, normalize and the cross product")

    def fitscen(kind):
        def f(I):
            s = S(I)
            num = I.num
            fit = Fitter(s, kind, inertia=0, damping=0)
            names = dict(STATE, **(STATE_RGB if kind != "depth" else {}))
            two = ("transform_translation", "transform_quaternion") if kind == "multi" else ()
            for n, (lab, dims) in names.items():
                fit.set(n, s.param(lab, ([2] if n in two else []) + dims(s)))
            if kind != "depth":
                fit.set("light_ambient", g.sym("LA"))
            for n in ("vertices", "translation", "quaternion"):
                I.setattr(fit.f, "step_max_" + n, INF)
            if "iter" in fit.f.attrs:
                I.setattr(fit.f, "iter", g.sym("iter", True))
            out = fit.step()
            E = energy_node(I, out[0])
            nat = s.natives()
            pairs, last = [], None
            for x in nat:
                if not x.back:
                    last = x
                else:
                    pairs.append((last, x))
            res = {}
            if len(pairs) != (2 if kind == "multi" else 1):
                return {"one backward pass per frame": "a fitting step calls the native backward pass %d times" % len(pairs)}
            # upstream gradients
            L = g.tangent(E, s.seed("image", prefix="nat:"), {})
            R = g.ZERO
            for fw, bw in pairs:
                a = bw.snap["image_b"]
                rd = num.reader(a)
                R = g.add(R, num.total(a.dims, lambda i, rd=rd, fw=fw: g.mul(rd(i), g.fn("H:nat:image", [fw.key] + [num.node(x) for t in i for x in t]))))
                for k in ("ij", "depths", "colors", "shade", "faces", "edgeflags"):
                    res["inputs of the backward pass: " + k] = res.get("inputs of the backward pass: " + k) or arrays_equal(I, bw.snap[k], fw.snap[k])
            res["upstream gradient"] = None if same(I, L, R) else "not the derivative of the energy with respect to the rendered image"
            # parameters
            mean = {}

            def direction(lab, idx):
                h = g.fn("H:elem:" + lab, idx)
                if lab != "X":
                    return h
                k = idx[1]
                if k not in mean:
                    mean[k] = g.mul(g.recip(s.V), num.total([num.dim(s.V)], lambda i: g.fn("H:elem:X", [num.node(i[0][0]), k])))
                return g.sub(h, mean[k])

            def derivative(seed):
                d = g.tangent(E, seed, {})
                for fw, bw in pairs:
                    d = g.add(d, s.pull(fw, seed, bw.key))
                return d
            for n, (lab, dims) in names.items():
                def seed(x, lab=lab):
                    if x.op == "fn" and x.val == "elem:" + lab:
                        return direction(lab, list(x.args))
                    return None
                old = s.param(lab, ([2] if n in two else []) + dims(s))
                new = fit.get("speed_quaternion") if n == "transform_quaternion" else fit.get(n)
                a = num.arr(new)
                rn, ro = num.reader(a), num.reader(old)
                if n == "transform_quaternion":
                    delta = rn
                elif n == "vertices":
                    mo = {}

                    def delta(i):
                        k = num.node(i[1][0])
                        if k not in mo:
                            mo[k] = g.mul(g.recip(s.V), num.total([num.dim(s.V)], lambda j: ro((j[0], i[1]))))
                        return g.sub(rn(i), g.sub(ro(i), mo[k]))
                else:
                    delta = lambda i: g.sub(rn(i), ro(i))
                L = num.total(a.dims, lambda i: g.mul(delta(i), direction(lab, [num.node(x) for t in i for x in t])))
                k = ratio(I, L, derivative(seed))
                res["update of " + n] = None if k is not None and k < 0 else "not a negative multiple of the derivative of the energy%s" % ("" if k is None else " (factor %s)" % k)
            if kind != "depth":
                def seed(x):
                    return g.sym("H:LA") if x.op == "sym" and x.val == "LA" else None
                L = g.mul(g.sub(energy_node(I, fit.get("light_ambient")), g.sym("LA")), g.sym("H:LA"))
                k = ratio(I, L, derivative(seed))
                res["update of light_ambient"] = None if k is not None and k < 0 else "not a negative multiple of the derivative of the energy"
            return res
        return f
    jobs = []

    def job(name, scen, key, **kw):
        def f():
            for o in run(c, env, name, scen, setup=rotation_model, **kw):
                for k, r in o.result.items():
                    c.ob("exact adjoint", "%s: %s" % (name, k), r is None, r or "", key="adjoint:%s:%s" % (key, k))
        jobs.append(f)
    for kind in ("depth", "rgb", "multi"):
        job(Fitter.CLS[kind] + ".step", fitscen(kind), kind)

    def rigid(I):
        s = S(I)
        en = s.new("LaplacianRigidEnergy", s.mesh(), s.param("v0", [s.V, 3]), g.sym("cregu"), mod="deodr.laplacian_rigid_energy")
        out = s.do(en, "evaluate", s.param("v1", [s.V, 3]))
        L = g.tangent(energy_node(I, out[0]), s.seed("v1"), {})
        return {"gradient": None if same(I, L, s.dual(out[1], "v1")) else "not the derivative of the energy",
                "energy depends on the vertices": None if L is not g.ZERO else "constant energy"}
    for sp in (True, False):
        job("LaplacianRigidEnergy.evaluate%s" % ("" if sp else " (sparse matrices expanded)"), rigid, "rigid", opaque_sparse=sp)

    def kernel(which):
        def f(I):
            s = S(I)
            num = I.num
            call = lambda n, *a, **k: I.call(s.cls(n, "deodr.tools"), list(a), k)
            N = s.V
            if which == "qrot":
                q, v, b = s.param("q", [4]), s.param("x", [N, 3]), s.param("b", [N, 3])
                out = num.arr(call("qrot", q, v))
                gr = call("qrot_backward", q, v, b)
                pairs = [("q", gr[0]), ("x", gr[1])]
            elif which.startswith("normalize"):
                ax = {"normalize": -1, "normalize rows": 1, "normalize one": -1}[which]
                dims = [4] if which == "normalize one" else [N, 3]
                v, b = s.param("x", dims), s.param("b", dims)
                out = num.arr(call("normalize", v, axis=ax))
                pairs = [("x", call("normalize_backward", v, b, axis=ax))]
            else:
                u, v, b = s.param("q", [N, 3]), s.param("x", [N, 3]), s.param("b", [N, 3])
                out = num.arr(I.call_ext("numpy.cross", [u, v], {}))
                gr = call("cross_backward", u, v, b)
                pairs = [("q", gr[0]), ("x", gr[1])]
            ro, rb = num.reader(out), num.reader(b)
            L = num.total(out.dims, lambda i: g.mul(ro(i), rb(i)))
            return {"gradient %d" % k: None if same(I, g.tangent(L, s.seed(lab), {}), s.dual(gr, lab)) else "not the transposed derivative"
                    for k, (lab, gr) in enumerate(pairs)}
        return f
    for which in ("qrot", "normalize", "normalize rows", "normalize one", "cross"):
        job(which.split()[0] + "_backward" + (" (" + which + ")" if " " in which else ""), kernel(which), which)
    c.parallel(jobs)
    return c.finish(EXPL["G08"], [("paths explored", 10), ("Python functions analysed", 20)])


# ---------------------------------------------------------------- L01

def l01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("a fitter that made a step, whose fields assigned by that step were then replaced by arbitrary values (any number of further steps) and that was reset, "
           "behaves in its next steps like one that was just built: same energy, images and fields")
    c.rule("in every class with step and reset, NumPy or framework based: a field that step changes and reads before assigning (state carried from step to step) is assigned by reset, "
           "on every path, from values that are not themselves carried, and not to storage of the initial values that step modifies in place")

    def snapshot(I, fit):
        out = {}
        for k, v in fit.f.attrs.items():
            if isinstance(v, (Arr, int, float)) or hasattr(v, "lanes"):
                out[k] = v
        return out

    def scen(kind, when):
        def f(I):
            s = S(I)
            fresh = Fitter(s, kind)
            fit = Fitter(s, kind)
            before = snapshot(I, fit)
            fit.step()
            after = snapshot(I, fit)
            for k, v in after.items():
                if k in before and v is before[k]:
                    continue      # the same object; if it was written in place it stays as it is
                if isinstance(v, Arr):
                    I.setattr(fit.f, k, s.param("any:" + k, [list(d)[0] if len(d) == 1 else d for d in v.dims]))
                else:
                    I.setattr(fit.f, k, g.sym("any:" + k, isinstance(v, int) and not isinstance(v, bool)))
            s.do(fit.f, "reset")
            if when == "reset, then new image":
                fit.image()
            res = {}
            for n in range(1):
                want, have = freeze(I, fresh.step()), freeze(I, fit.step())
                for k, (a, b) in enumerate(zip(have, want)):
                    res["result %d of step %d" % (k, n + 1)] = arrays_equal(I, a, b)
            w, h = snapshot(I, fresh), snapshot(I, fit)
            for k in sorted(w):
                res["field " + k] = arrays_equal(I, h.get(k), w[k])
            return res
        return f
    jobs = []

    def job(kind, when):
        def f():
            name = "%s, %s" % (Fitter.CLS[kind], when)
            for o in run(c, env, name, scen(kind, when), setup=rotation_model):
                for k, r in o.result.items():
                    c.ob("reset restores the initial state", "%s: %s" % (name, k), r is None, r or "", key="reset:%s:%s" % (kind, k))
        jobs.append(f)
    for kind in ("depth", "rgb", "multi"):
        job(kind, "steps, then reset")
    job("depth", "reset, then new image")
    c.parallel(jobs)
    for path, cls in classes(c.repo):
        names = {m.name for m in cls.body if isinstance(m, ast.FunctionDef)}
        if not {"step", "reset"} <= names:
            continue
        state, eff = carried(cls)
        r = Effects(cls).of("reset")
        key = "carried:%s:%s:" % (path, cls.name)
        c.count("fields carried from step to step", len(state))
        for f, line in sorted(state.items()):
            where = "%s:%d %s.%s" % (path, line, cls.name, f)
            c.ob("reset restores carried fields", where, f in r.done, "step reads self.%s before assigning it and reset does not assign it" % f, key=key + f)
            c.ob("reset restores carried fields", where + " (independent of earlier steps)", f not in r.read,
                 "reset (line %s) reads self.%s, which the steps changed" % (r.read.get(f), f), key=key + "read:" + f)
            y = shares(cls, r.values.get(f))
            c.ob("reset restores carried fields", where + " (storage)", not (f in eff.inplace and y),
                 "step (line %s) modifies self.%s in place, which shares its storage with self.%s after reset" % (eff.inplace.get(f), f, y), key=key + "alias:" + f)
    return c.finish(EXPL["L01"], [("paths explored", 4), ("fields carried from step to step", 20)])


EXPL = {
    "L01": "Relational abstract interpretation of each fitter: fields changed by stepping are replaced by arbitrary values, the fitter is reset and stepped, and the outcome "
           "is compared term by term with that of a new fitter.",
    "G08": "Abstract interpretation of one step of each fitter from an arbitrary symbolic state, the compiled renderer uninterpreted: the state update is compared with the "
           "derivative of the returned energy, computed by differentiating the energy term and chaining the renderer's gradients.",
}
