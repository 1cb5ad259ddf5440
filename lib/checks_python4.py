"""Properties of mesh objects: derived quantities, subdivision, conversion from and to other mesh libraries."""
import ast
import itertools
from fractions import Fraction
from gvn import AnalysisError, show
from pynum import Arr, Opq, SymBool
from pyinterp import Inst, Cls
from pyenv import PyEnv, S, arrays_equal
from pyfields import Effects, classes
from checks_python import run, same, under
from checks_python2 import freeze

MESH = "deodr.triangulated_mesh"


def obj(name, **attrs):
    """an object of another library with the given attributes"""
    o = Inst(Cls(ast.parse("class %s:\n pass" % name).body[0], None, []))
    o.attrs.update(attrs)
    return o


# ---------------------------------------------------------------- M01

QUERY = ("face normals", "vertex normals", "volume", "silhouette", "normal gradients")


def query(s, mesh, q):
    I = s.I
    if q == "face normals":
        return s.get(mesh, "face_normals")
    if q == "vertex normals":
        return s.get(mesh, "vertex_normals")
    if q == "volume":
        return s.do(mesh, "compute_volume")
    if q == "silhouette":
        return s.do(mesh, "edge_on_silhouette", s.param("p2d", [s.V, 2]))
    s.get(mesh, "vertex_normals")
    I.setattr(mesh, "_vertices_b", s.num.full("zeros", [s.V, 3], 0))
    s.do(mesh, "compute_vertex_normals_backward", s.param("nb", [s.V, 3]))
    return s.get(mesh, "_vertices_b")


def m01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("after every sequence of up to three of {query face normals, vertex normals, volume, silhouette, normal gradients; set vertices, to another array or to the same array changed in place}, each query returns what it "
           "returns on a mesh built from the current vertices, with and without adjacencies computed at construction")
    c.rule("in every mesh class: a method that assigns a field from which a lazily computed field (`if self.x is None`) is computed also resets or recomputes that field")

    def build(s, cls, tag, adj):
        kw = {"clockwise": s.flag("clockwise"), "compute_adjacencies": adj}
        if cls == "ColoredTriMesh":
            kw["colors"] = s.param("vcol", [s.V, s.C])
        return s.new(cls, s.param("faces", [s.F, 3], "u4"), s.param("vertices" + tag, [s.V, 3]), mod=MESH, **kw)

    def scen(cls, adj, hist, q):
        def f(I):
            s = S(I)
            n = 0
            mesh = build(s, cls, "0", adj)
            for h in hist:
                if h == "set":
                    n += 1
                    s.do(mesh, "set_vertices", s.param("vertices%d" % n, [s.V, 3]))
                elif h == "update":      # the caller changes the array the mesh holds and hands it over again
                    n += 1
                    v = s.get(mesh, "vertices")
                    I.setitem(v, slice(None), s.param("vertices%d" % n, [s.V, 3]))
                    s.do(mesh, "set_vertices", v)
                else:
                    query(s, mesh, h)
            have = freeze(I, query(s, mesh, q))
            fresh = build(s, cls, str(n), adj)
            res = {q: arrays_equal(I, have, freeze(I, query(s, fresh, q)))}
            res["vertices"] = arrays_equal(I, s.get(mesh, "vertices"), s.param("vertices%d" % n, [s.V, 3]))
            return res
        return f
    jobs = []

    def job(hs, cls, adj, q):
        def f():
            for hist in hs:
                where = "%s%s: %s, then %s" % (cls, "" if adj else " without adjacencies", ", ".join(hist) or "new", q)
                for o in run(c, env, where, scen(cls, adj, hist, q)):
                    for k, r in o.result.items():
                        c.ob("derived quantities match the vertices", "%s: %s" % (where, k), r is None, r or "", key="stale:%s:%s:%s" % (cls, q, ",".join(hist)))
        jobs.append(f)
    deep = c.tier == "thorough"
    short = ("face normals", "vertex normals", "normal gradients")
    hists = [()] + [h for n in (1, 2, 3) for h in itertools.product(short + ("set",), repeat=n) if "set" in h and (deep or n < 3 or h[0] != "set")]
    hists += [("volume", "set"), ("silhouette", "set"), ("set", "volume")]
    hists += [("update",)] + [(q, "update") for q in short + ("volume",)] + [("set", "vertex normals", "update"), ("vertex normals", "update", "set")]
    for q in QUERY:
        job(hists, "TriMesh", True, q)
        job([h for h in hists if len(h) < 3], "ColoredTriMesh", True, q)
        job([(), ("set",), ("face normals", "set")], "TriMesh", False, q)
    c.parallel(jobs)
    lazy_fields(c)
    return c.finish(EXPL["M01"], [("paths explored", 100), ("lazily computed fields", 6)])


def lazy_fields(c):
    """cache-invalidation lint over every class hierarchy of the package"""
    byname = {}
    for path, cls in classes(c.repo):
        byname.setdefault(cls.name, []).append((path, cls))

    def mro(path, cls, seen=()):
        out = [(path, cls)]
        for b in cls.bases:
            n = ast.unparse(b).split(".")[-1]
            for p, k in byname.get(n, []):
                if n not in seen:
                    out += mro(p, k, tuple(seen) + (cls.name,))
                    break
        return out
    for name, defs in sorted(byname.items()):
        for path, cls in defs:
            chain = mro(path, cls)
            if not any(k.name == "TriMesh" for _, k in chain):
                continue
            methods = {}
            for p, k in reversed(chain):
                for m in k.body:
                    if isinstance(m, ast.FunctionDef):
                        setter = any(ast.unparse(d).endswith(".setter") for d in m.decorator_list)
                        methods[m.name + ("=" if setter else "")] = (p, m)

            def flow(m, exprs, seen):
                """fields that flow into the given expressions of method m: through its local variables and the values returned by the methods they use"""
                me = m.args.args[0].arg
                todo, names, out = list(exprs), set(), set()
                while todo:
                    for x in ast.walk(todo.pop()):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                            if x.attr not in methods:
                                out.add(x.attr)
                            elif x.attr not in seen:
                                seen.add(x.attr)
                                k = methods[x.attr][1]
                                if k.args.args:
                                    out |= flow(k, [y.value for y in ast.walk(k) if isinstance(y, ast.Return) and y.value is not None], seen)
                        elif isinstance(x, ast.Name) and x.id != me and x.id not in names:
                            names.add(x.id)
                            for y in ast.walk(m):
                                if isinstance(y, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and y.value is not None:
                                    ts = y.targets if isinstance(y, ast.Assign) else [y.target]
                                    if any(isinstance(z, ast.Name) and z.id == x.id for t in ts for z in ast.walk(t)):
                                        todo.append(y.value)
                return out

            def sources(m, f, seen=()):
                """fields from which method m, or a method it calls, computes the field f it assigns"""
                me = m.args.args[0].arg
                out = set()
                for x in ast.walk(m):
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                        ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                        if any(isinstance(z, ast.Attribute) and z.attr == f and isinstance(z.value, ast.Name) and z.value.id == me and isinstance(z.ctx, ast.Store)
                               for t in ts for z in ast.walk(t)):
                            out |= flow(m, [x.value], set())
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                        k = x.func.attr
                        if k in methods and k not in seen and methods[k][1].args.args:
                            out |= sources(methods[k][1], f, tuple(seen) + (k,))
                return out

            def writes(node, me, seen):
                out = set()
                for x in ast.walk(node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        if isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
                        elif x.attr in methods and x.attr not in seen:
                            seen.add(x.attr)
                            m = methods[x.attr][1]
                            out |= writes(m, m.args.args[0].arg, seen)
                return out
            cache = {}
            for mn, (p, m) in methods.items():
                if not m.args.args:
                    continue
                me = m.args.args[0].arg
                for x in ast.walk(m):
                    if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and isinstance(x.test.ops[0], ast.Is) and \
                            isinstance(x.test.left, ast.Attribute) and isinstance(x.test.left.value, ast.Name) and x.test.left.value.id == me and \
                            isinstance(x.test.comparators[0], ast.Constant) and x.test.comparators[0].value is None:
                        f = x.test.left.attr
                        body = ast.Module(x.body, [])
                        if f in writes(body, me, set()):
                            r = sources(m, f)
                            fill = set()
                            writes(body, me, fill)
                            cache.setdefault(f, [set(), set()])
                            cache[f][0] |= r - {f}
                            cache[f][1] |= fill | {mn}
            grow = True
            while grow:  # a cache computed from another cache depends on what that one is computed from
                grow = False
                for f, (deps, _) in cache.items():
                    more = set().union(*[cache[d][0] for d in deps if d in cache], set()) - deps - {f}
                    if more:
                        deps |= more
                        grow = True
            fillers = set().union(*[v[1] for v in cache.values()]) if cache else set()
            for f, (deps, _) in sorted(cache.items()):
                c.count("lazily computed fields", 1)
                for mn, (p, m) in sorted(methods.items()):
                    if mn in ("__init__",) or mn in fillers or not m.args.args:
                        continue
                    me = m.args.args[0].arg
                    own = {x.attr for x in ast.walk(m) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me}
                    hit = sorted(own & deps)
                    if not hit:
                        continue
                    ok = f in writes(m, me, set())
                    c.ob("caches are invalidated", "%s %s.%s" % (p, cls.name, mn), ok, "assigns self.%s, from which the cached self.%s is computed, and leaves the cache" % (hit[0], f),
                         key="cache:%s:%s:%s" % (cls.name, mn, f))


# ---------------------------------------------------------------- M02

def corners(s, mesh, faces, f):
    """the six possible corners of a sub-face of face f: barycentric coordinates -> index node"""
    g, num = s.g, s.num
    fa, fe = num.arr(s.get(mesh, "faces")), num.arr(s.get(mesh, "adjacencies", "faces_edges"))
    h = Fraction(1, 2)
    out = []
    for k in range(3):
        out.append((tuple(int(k == j) for j in range(3)), num.node(num.at(fa, ((f,), (k,))))))
    for k in range(3):
        out.append((tuple(h if j in (k, (k + 1) % 3) else 0 for j in range(3)), g.add(num.node(num.at(fe, ((f,), (k,)))), s.V)))
    return out


def det3(m):
    (a, b, c), (d, e, f), (x, y, z) = m
    return a * (e * z - f * y) - b * (d * z - f * x) + c * (d * y - e * x)


def m02(c):
    env = PyEnv(c)
    g = env.g
    c.rule("loop_subdivision: every new face, in barycentric coordinates of its parent face (edge midpoints for edge vertices), has a positive determinant, and the directed "
           "edges that do not cancel are the boundary of the parent, each once (the four faces tile it); orientation flag, number of colours and colour association are those of the parent mesh")
    c.rule("from_trimesh and to_trimesh: every face corner keeps its position, texture coordinate (pixel units: u W - 1/2, (1 - v) H - 1/2) and texture or colour; "
           "the conversion of a mesh with clockwise faces reverses its faces")
    jobs = []

    def job(where, scen, key, **kw):
        def f():
            for o in run(c, env, where, scen, **kw):
                for k, r in o.result.items():
                    c.ob("conversion keeps the mesh", "%s: %s" % (where, k), r is None, r or "", key="%s:%s" % (key, k))
        jobs.append(f)

    def flags(s, old, new):
        I = s.I
        return {"clockwise": arrays_equal(I, s.get(new, "clockwise"), s.get(old, "clockwise")),
                "number of colours": arrays_equal(I, s.get(new, "nb_colors"), s.get(old, "nb_colors")),
                "colours present": None if (s.get(new, "vertices_colors") is None) == (s.get(old, "vertices_colors") is None) else "vertex colours appear or vanish",
                "texture present": None if s.get(new, "texture") is None and s.get(new, "uv") is None else "a texture appears"}

    def subdivided(colors, n_iter, how):
        def f(I):
            s = S(I)
            num = I.num
            kw = {"colors": s.param("vcol", [s.V, s.C])} if colors else {"nb_colors": s.C}
            mesh = s.new("ColoredTriMesh", s.param("faces", [s.F, 3], "u4"), s.param("vertices", [s.V, 3]), mod=MESH, clockwise=s.flag("clockwise"), **kw)
            before = freeze(I, s.get(mesh, "vertices"))
            if n_iter == 2:
                # the result of one subdivision is an arbitrary mesh (that it keeps the settings is decided with n_iter = 1)
                kw = {"colors": s.param("vcol1", [s.V, s.C])} if colors else {"nb_colors": s.C}
                half = s.new("ColoredTriMesh", s.param("faces1", [s.F, 3], "u4"), s.param("vertices1", [s.V, 3]), mod=MESH, clockwise=s.flag("clockwise"), **kw)

                def once(I, f, args, kw):
                    n = kw.get("n_iter", args[1] if len(args) > 1 else 1)
                    return half if args[0] is mesh and n == 1 else NotImplemented
                I.hooks["loop_subdivision"] = once
            new = s.do(mesh, "subdivise", n_iter) if how == "method" else I.call(s.cls("loop_subdivision", MESH), [mesh], {"n_iter": n_iter})
            res = flags(s, mesh, new)
            res["vertices of the parent"] = arrays_equal(I, s.get(mesh, "vertices"), before)
            if n_iter == 0:
                res["vertices"] = arrays_equal(I, s.get(new, "vertices"), before)
                return res
            if n_iter > 1:
                if len(num.arr(s.get(new, "faces")).dims[0]) == 2:
                    f = g.sym("gen:f", True)
                    v = num.node(num.at(num.arr(s.get(new, "faces")), ((0, f), (0,))))
                    res["applied to the result of the first"] = None if "faces1" in str([x.val for x in g.walk([v])]) else "the second subdivision does not start from the result of the first"
                return res
            nf = num.arr(s.get(new, "faces"))
            d = nf.dims[0]
            four = [k for k, x in enumerate(d) if x == 4]
            other = [k for k, x in enumerate(d) if num.node(x) is s.F]
            if len(d) != 2 or len(four) != 1 or len(other) != 1:
                raise AnalysisError("the faces of the subdivided mesh are not four per face in a recognisable order: %r" % (d,))
            fsym = g.sym("gen:f", True)
            I.assume(g.b_not(g.b_lt0(fsym, True)))
            cand = corners(s, mesh, None, fsym)
            total = Fraction(0)
            rows = []
            for b in range(4):
                i = [None, None]
                i[four[0]], i[other[0]] = b, fsym
                m = []
                for k in range(3):
                    v = num.node(num.at(nf, (tuple(i), (k,))))
                    hit = [bc for bc, n in cand if n is v or g.equal(n, v)]
                    if not hit:
                        res["sub-face %d" % b] = "corner %d is not a corner or an edge of its face: %s" % (k, show(v)[:120])
                        return res
                    m.append(hit[0])
                dt = det3(m)
                rows.append(m)
                total += dt
                res["orientation of sub-face %d" % b] = None if dt > 0 else "its corners %s are turned against its face" % [tuple(map(str, x)) for x in m]
            # faces of positive orientation tile the parent iff the directed edges that do not cancel are its boundary, each once
            net = {}
            for m in rows:
                for k in range(3):
                    a, b = m[k], m[(k + 1) % 3]
                    net[a, b] = net.get((a, b), 0) + 1
                    net[b, a] = net.get((b, a), 0) - 1
            ring = [cand[0][0], cand[3][0], cand[1][0], cand[4][0], cand[2][0], cand[5][0]]
            left = {e: n for e, n in net.items() if n > 0}
            want = {(ring[k], ring[(k + 1) % 6]): 1 for k in range(6)}
            res["the sub-faces cover the face"] = None if total == 1 and left == want else "the sub-faces overlap or leave a part uncovered (total area %s)" % total
            # colours
            if colors:
                nc, oc = num.arr(s.get(new, "vertices_colors")), num.arr(s.get(mesh, "vertices_colors"))
                ed = num.arr(s.get(mesh, "adjacencies", "edges"))
                v, e, k = g.sym("gen:v", True), g.sym("gen:e", True), g.sym("gen:c", True)
                for x in (v, e):
                    I.assume(g.b_not(g.b_lt0(x, True)))
                I.assume(g.b_lt0(g.sub(v, s.V), True))
                have = num.node(num.at(nc, ((v,), (k,))))
                res["colour of a kept vertex"] = None if same(I, have, num.node(num.at(oc, ((v,), (k,))))) else "changed: %s" % show(have)[:120]
                have = num.node(num.at(nc, ((g.add(e, s.V),), (k,))))
                end = [num.node(num.at(oc, ((num.at(ed, ((e,), (j,))),), (k,)))) for j in (0, 1)]
                want = g.mul(g.const(Fraction(1, 2)), g.add(*end))
                res["colour of an edge vertex"] = None if same(I, have, want) else "not the mean of the colours of the edge's end points: %s" % show(have)[:120]
            # positions: an edge vertex stays an affine combination in which its own end points dominate is a numerical matter; its support is decided
            nv = num.arr(s.get(new, "vertices"))
            res["three coordinates"] = None if nv.ndim == 2 and num.same_dim(nv.dims[1], (3,)) else "vertices of shape %r" % (nv.dims,)
            return res
        return f
    def moves(I):
        s = S(I)
        num = I.num
        F, V = s.param("faces", [s.F, 3], "u4"), s.param("vertices", [s.V, 3])
        t = s.param("t", [3])
        rV, rt = num.reader(V), num.reader(t)
        W = num.array("moved", [s.V, 3], num.memo(lambda i: g.add(num.node(rV(i)), num.node(rt((i[1],))))))
        new = []

        def adjacencies(I, f, args, kw):       # those of the result are not looked at
            return NotImplemented if num.same_dim(num.arr(s.get(args[0], "faces")).dims[0], (s.F,)) else None
        I.hooks["TriMesh.compute_adjacencies"] = adjacencies
        for X in (V, W):
            mesh = s.new("ColoredTriMesh", F, X, mod=MESH, clockwise=s.flag("clockwise"), nb_colors=3, compute_adjacencies=False)
            new.append(num.arr(s.get(I.call(s.cls("loop_subdivision", MESH), [mesh], {}), "vertices")))
        v, e = g.sym("gen:v", True), g.sym("gen:e", True)
        for x in (v, e):
            I.assume(g.b_not(g.b_lt0(x, True)))
        I.assume(g.b_lt0(g.sub(v, s.V), True))
        ef = num.reader(num.arr(s.get(mesh, "adjacencies", "edges_faces_ones")))
        n = num.total([num.dim(s.F)], lambda q: num.node(ef(((e,), (q[0][0],)))))
        n1, (w,) = num.node(ef(((e,), (num.sample(s.F, 1),)))), [x for x in g.walk([n]) if x.op == "fn" and x.val == "wgt"]
        n0 = num.node(ef(((e,), (num.sample(s.F, 0),))))
        res = {}
        # a generic kept vertex is a vertex of some face, so the (degree) denominators are not zero
        for d in range(3):
            have = g.sub(*[num.node(num.at(x, ((v,), (d,)))) for x in new[::-1]])
            r = None if same(I, have, num.node(rt(((d,),)))) else "coordinate %d: %s" % (d, show(have)[:120])
            res["kept vertices move with the mesh"] = res.get("kept vertices move with the mesh") or r
            have = g.sub(*[num.node(num.at(x, ((g.add(e, s.V),), (d,)))) for x in new[::-1]])
            for k in (1, 2):
                # an edge with k faces: the number of faces of the first kind follows from the sum
                eq = g.div(g.sub(g.const(k), g.mul(s.F, n1)), g.sub(n0, n1))
                h, want = g.subst(have, {w: eq}), num.node(rt(((d,),)))
                name = "vertices of %s edges move with the mesh" % ("boundary" if k == 1 else "inner")
                r = None if same(I, h, want) else "coordinate %d moves by another amount: %s" % (d, show(h)[:120])
                res[name] = res.get(name) or r
        return res
    c.rule("loop_subdivision: every new vertex is an affine combination of the vertices (a translated mesh gives the translated result), on inner and boundary edges alike")
    job("loop_subdivision of a translated mesh", moves, "affine", opaque_sparse=False)

    for colors in (True, False):
        for how in ("function", "method"):
            job("loop_subdivision, %s%s" % ("vertex colours" if colors else "no colours", " (subdivise)" if how == "method" else ""), subdivided(colors, 1, how), "subdivide")
        job("two subdivisions, %s" % ("vertex colours" if colors else "no colours"), subdivided(colors, 2, "function"), "subdivide2")
        job("no subdivision, %s" % ("vertex colours" if colors else "no colours"), subdivided(colors, 0, "function"), "subdivide0")

    def fromtri(kind, channels):
        def f(I):
            s = S(I)
            num = I.num
            Vt = s.V
            mv, mf = s.param("mv", [Vt, 3]), s.param("mf", [s.F, 3], "i8")
            th, tw = g.sym("th", True), g.sym("tw", True)
            for x in (th, tw):
                I.assume(g.b_not(g.b_lt0(g.sub(x, g.ONE), True)))
            if kind == "texture":
                vis = obj("visual", kind="texture", uv=s.param("muv", [Vt, 2]), material=obj("material", image=s.param("mtex", [th, tw, channels])))
            else:
                vis = obj("visual", kind="vertex", vertex_colors=s.param("mcol", [Vt, channels], "u1"))
            t = obj("Trimesh", vertices=mv, faces=mf, visual=vis)
            new = I.call(I.getattr(s.cls("ColoredTriMesh", MESH), "from_trimesh"), [t], {})
            nv, nf = num.arr(s.get(new, "vertices")), num.arr(s.get(new, "faces"))
            fsym = g.sym("gen:f", True)
            res = {"clockwise": arrays_equal(I, s.get(new, "clockwise"), False)}
            for k in range(3):
                corner = num.at(nf, ((fsym,), (k,)))
                for j in range(3):
                    have = num.node(num.at(nv, ((corner,), (j,))))
                    want = num.node(num.at(mv, ((num.at(mf, ((fsym,), (k,))),), (j,))))
                    r = None if same(I, have, want) else "coordinate %d of corner %d is %s" % (j, k, show(have)[:120])
                    res["position of the corners"] = res.get("position of the corners") or r
            if kind == "texture":
                res["faces_uv"] = arrays_equal(I, s.get(new, "faces_uv"), mf)
                uv, muv = num.arr(s.get(new, "uv")), vis.attrs["uv"]
                i = (g.sym("gen:i", True),)
                u, v = num.node(num.at(muv, (i, (0,)))), num.node(num.at(muv, (i, (1,))))
                half = g.const(Fraction(1, 2))
                for k, want in ((0, g.sub(g.mul(u, tw), half)), (1, g.sub(g.mul(g.sub(g.ONE, v), th), half))):
                    have = num.node(num.at(uv, (i, (k,))))
                    res["texture coordinate %d" % k] = None if same(I, have, want) else "is %s" % show(have)[:160]
                tex = num.arr(s.get(new, "texture"))
                res["texture shape"] = None if num.same_dim(tex.dims[0], (th,)) and num.same_dim(tex.dims[1], (tw,)) and num.same_dim(tex.dims[2], (min(channels, 3),)) else "%r" % (tex.dims,)
                idx = ((g.sym("gen:y", True),), (g.sym("gen:x", True),))
                for k in range(min(channels, 3)):
                    have, want = num.node(num.at(tex, idx + ((k,),))), g.mul(g.const(Fraction(1, 255)), num.node(num.at(vis.attrs["material"].attrs["image"], idx + ((k,),))))
                    r = None if same(I, have, want) else "channel %d is %s" % (k, show(have)[:120])
                    res["texels"] = res.get("texels") or r
                res["vertex colours"] = None if s.get(new, "vertices_colors") is None else "a textured mesh got vertex colours"
                res["number of colours"] = arrays_equal(I, s.get(new, "nb_colors"), min(channels, 3))
            else:
                col = num.arr(s.get(new, "vertices_colors"))
                i = (g.sym("gen:i", True),)
                pos = num.node(num.at(nv, (i, (0,))))
                res["number of colours"] = arrays_equal(I, s.get(new, "nb_colors"), 3)
                for k in range(3):
                    have = num.node(num.at(col, (i, (k,))))
                    r = "colour %d is not a vertex colour over 255: %s" % (k, show(have)[:120])
                    if pos.op == "fn" and pos.val == "elem:mv":
                        want = g.mul(g.const(Fraction(1, 255)), g.fn("elem:mcol", [pos.args[0], g.const(k)]))
                        if same(I, have, want) or same(I, have, g.mul(g.const(Fraction(1, 255)), num.node(num.at(vis.attrs["vertex_colors"], ((pos.args[0],), (k,)))))):
                            r = None
                        else:
                            r = "colour %d of a vertex does not come from the source vertex its position comes from: %s" % (k, show(have)[:120])
                    res["colours"] = res.get("colours") or r
                res["texture"] = None if s.get(new, "texture") is None and s.get(new, "uv") is None else "a texture appears"
            return res
        return f
    for kind, ch in (("texture", 3), ("texture", 4), ("vertex", 3), ("vertex", 4)):
        job("from_trimesh, %s, %d channels" % (kind, ch), fromtri(kind, ch), "from:" + kind)

    def trimesh_models(I):
        num = I.num

        def unmerge(I, args, kw):
            fa, ft = num.arr(args[0]), num.arr(args[1])
            ra, rt = num.reader(fa), num.reader(ft)
            new = num.array("unmerged", fa.dims, num.memo(lambda i: g.fn("um", [ra(i), rt(i)], isint=True)), "i8")
            n = g.fn("num", (I.term(fa), I.term(ft)), isint=True)

            def mask(k):
                def content(idx):
                    x = num.node(idx[0][0])
                    return x.args[k] if x.op == "fn" and x.val == "um" else g.fn("umask%d" % k, (x,), isint=True)
                return num.array("mask%d" % k, [n], num.memo(content), "i8")
            return (new, mask(0), mask(1))
        I.ext_hooks["trimesh.visual.texture.unmerge_faces"] = unmerge
        I.ext_hooks["PIL.Image.fromarray"] = lambda I, a, k: obj("Image", data=a[0])
        I.ext_hooks["trimesh.visual.material.SimpleMaterial"] = lambda I, a, k: obj("SimpleMaterial", **k)
        I.ext_hooks["trimesh.visual.texture.TextureVisuals"] = lambda I, a, k: obj("TextureVisuals", **k)
        I.ext_hooks["trimesh.Trimesh"] = lambda I, a, k: obj("Trimesh", **k)

    def totri(I):
        s = S(I)
        num = I.num
        cw = s.flag("clockwise")
        mesh = s.mesh(textured=True, C=3, clockwise=cw)
        t = s.do(mesh, "to_trimesh")
        nv, nf, uv = num.arr(s.get(t, "vertices")), num.arr(s.get(t, "faces")), num.arr(s.get(t, "visual", "uv"))
        v, fa, ft, ouv = (num.arr(s.get(mesh, n)) for n in ("vertices", "faces", "faces_uv", "uv"))
        tex = num.arr(s.get(mesh, "texture"))
        H, W = num.dimnode(tex.dims[0]), num.dimnode(tex.dims[1])
        f = g.sym("gen:f", True)
        half = g.const(Fraction(1, 2))
        res = {}
        perm = []
        for k in range(3):
            corner = num.at(nf, ((f,), (k,)))
            pos = [num.node(num.at(nv, ((corner,), (j,)))) for j in range(3)]
            tc = [num.node(num.at(uv, ((corner,), (j,)))) for j in range(2)]
            hit = None
            for p in range(3):
                vi, ti = num.at(fa, ((f,), (p,))), num.at(ft, ((f,), (p,)))
                if all(same(I, pos[j], num.node(num.at(v, ((vi,), (j,))))) for j in range(3)):
                    hit = p
                    a, b = (num.node(num.at(ouv, ((ti,), (j,)))) for j in range(2))
                    want = [g.div(g.add(a, half), W), g.sub(g.ONE, g.div(g.add(b, half), H))]
                    for j in range(2):
                        r = None if same(I, tc[j], want[j]) else "texture coordinate %d of corner %d is %s" % (j, k, show(tc[j])[:120])
                        res["texture coordinates"] = res.get("texture coordinates") or r
            if hit is None:
                res["corners"] = "corner %d is at %s" % (k, show(pos[0])[:120])
                return res
            perm.append(hit)
        res["corners"] = None if sorted(perm) == [0, 1, 2] else "face corners %r" % perm
        if res["corners"] is None:
            even = tuple(perm) in ((0, 1, 2), (1, 2, 0), (2, 0, 1))
            b = g.tobdd(num.node(cw)) if not isinstance(cw, SymBool) else cw.b
            known = True if g.implies(I.pc, b) else False if g.implies(I.pc, g.b_not(b)) else None
            if known is None:
                res["orientation"] = "the corner order does not depend on the clockwise flag"
            else:
                res["orientation"] = None if even != known else "a mesh with %s faces is exported with the corner order %s" % ("clockwise" if known else "counter-clockwise", perm)
        return res
    job("to_trimesh", totri, "to", setup=trimesh_models)
    c.parallel(jobs)
    return c.finish(EXPL["M02"], [("paths explored", 8), ("Python functions analysed", 8)])


EXPL = {
    "M01": "Relational abstract interpretation of mesh objects: each history of updates and queries against a mesh built from the current vertices, compared term by term; "
           "plus a lint that every lazily computed field is invalidated where its sources are assigned.",
    "M02": "Abstract interpretation of subdivision and conversion on symbolic meshes: index terms of the new faces are resolved to corners and edges of the source face, "
           "attributes are compared with those of the source as terms.",
}
