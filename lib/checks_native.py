"""Checks of the native renderer other than the adjoint equations: draws, depth, blending, temporaries, refusals, conventions."""
from fractions import Fraction
from gvn import Graph, AnalysisError, show
from native import Run, load_program, untoken, has_elem, rewrite
from adjoint import Forward
from cxxinterp import Log


class Env:
    def __init__(self, c):
        self.c = c
        self.prog = load_program(c.repo)
        self.g = Graph()
        self.cache = {}

    def run(self, fname, err=0, bg=True, persp=0, cull=1):
        k = (fname, err, bg, persp, cull)
        if k not in self.cache:
            r = Run(self.prog, self.g, fname, err, bg, persp, cull)
            self.cache[k] = r
            c = self.c
            c.count("abstract runs of the native entry points", 1)
            c.count("native functions analysed", len(r.I.stats["functions"]))
            c.count("loops summarised", r.I.stats["loops"])
            c.count("memory accesses", len(r.I.accesses))
        return self.cache[k]


def mode(err, bg, persp, cull):
    return "%s%s%s%s" % ("error" if err else "image", "" if bg else " background colour", " perspective" if persp else "",
                         "" if cull else " no culling")


def same(g, guard, got, want):
    """None when got == want wherever guard holds"""
    if got is want:
        return None
    a, b = g.sel(guard, got, g.ZERO), g.sel(guard, want, g.ZERO)
    if a is b:
        return None
    return g.differs(a, b)


# ------------------------------------------------------------------ oracle of the rendering model

class Oracle:
    """specification terms for triangle k of the scene (independent of the renderer's own expressions)"""

    def __init__(self, g, k, persp):
        self.g, self.k, self.persp = g, k, persp
        self.fi = [g.fn("elem:faces", (g.add(g.mul(g.const(3), k), g.const(i)),), isint=True) for i in range(3)]
        self.fuv = [g.fn("elem:faces_uv", (g.add(g.mul(g.const(3), k), g.const(i)),), isint=True) for i in range(3)]
        half = g.sel(g.b_atom("flag:integer_pixel_centers", g.ZERO), g.ZERO, g.const(Fraction(1, 2)))
        self.V = [[g.sub(self.at("ij", f, 2, d), half) for d in (0, 1)] for f in self.fi]
        self.z = [self.at("depths", f, 1, 0) for f in self.fi]
        self.cw = g.b_atom("flag:clockwise", g.ZERO)

    def at(self, name, i, stride, d):
        g = self.g
        d = d if not isinstance(d, int) else g.const(d)
        return g.fn("elem:" + name, (g.add(g.mul(i, stride if not isinstance(stride, int) else g.const(stride)), d),))

    def cross(self, a, b, p):
        g = self.g
        return g.sub(g.mul(g.sub(b[0], a[0]), g.sub(p[1], a[1])), g.mul(g.sub(p[0], a[0]), g.sub(b[1], a[1])))

    def area2(self):
        """twice the area, positive for a front-facing triangle"""
        g = self.g
        a = self.cross(self.V[0], self.V[1], self.V[2])
        return g.sel(self.cw, a, g.neg(a))

    def behind(self):
        g = self.g
        b = 0
        for z in self.z:
            b = g.b_or(b, g.b_lt0(z, False))
        return b

    def front(self):
        g = self.g
        return g.b_and(g.b_lt0(g.neg(self.area2()), False), g.b_not(self.behind()))

    def lam(self, p):
        g = self.g
        V = self.V
        A = g.recip(self.cross(V[0], V[1], V[2]))
        return [g.mul(A, self.cross(V[1], V[2], p)), g.mul(A, self.cross(V[2], V[0], p)), g.mul(A, self.cross(V[0], V[1], p))]

    def edge(self, n, p):
        """(coordinates of the projection of p on edge n, outward distance from the edge)"""
        g = self.g
        a, b = n, (n + 1) % 3
        A, B = self.V[a], self.V[b]
        e = [g.sub(B[i], A[i]) for i in (0, 1)]
        L2 = g.add(g.mul(e[0], e[0]), g.mul(e[1], e[1]))
        t = g.div(g.add(g.mul(e[0], g.sub(p[0], A[0])), g.mul(e[1], g.sub(p[1], A[1]))), L2)
        w = [g.ZERO] * 3
        w[a], w[b] = g.sub(g.ONE, t), t
        d = g.div(self.cross(A, B, p), g.sqrt(L2))
        return w, g.sel(self.cw, g.neg(d), d)

    def mix(self, w, vals):
        """interpolation with weights w, perspective-correctly when requested"""
        g = self.g
        s = g.ZERO
        for i in range(3):
            if w[i] is g.ZERO:
                continue
            v = vals[i]
            if self.persp:
                v = g.div(v, self.z[i])
            s = g.add(s, g.mul(w[i], v))
        if self.persp:
            s = g.mul(s, self.depth(w))
        return s

    def depth(self, w):
        g = self.g
        s = g.ZERO
        for i in range(3):
            if w[i] is not g.ZERO:
                s = g.add(s, g.mul(w[i], g.recip(self.z[i]) if self.persp else self.z[i]))
        return g.recip(s) if self.persp else s

    def color(self, w, ch):
        g = self.g
        nc = g.sym("nb_colors", True)
        return self.mix(w, [self.at("colors", f, nc, ch) for f in self.fi])

    def textured(self, w, ch):
        g = self.g
        nc = g.sym("nb_colors", True)
        size = [g.sym("texture_width", True), g.sym("texture_height", True)]
        L = self.mix(w, [self.at("shade", f, 1, 0) for f in self.fi])
        fp, nx, e = [], [], []
        for d in (0, 1):
            p = self.mix(w, [self.at("uv", f, 2, d) for f in self.fuv])
            S = size[d]
            last = g.sub(S, g.ONE)
            lo = g.b_lt0(p, False)
            inside = g.b_and(g.b_not(lo), g.b_lt0(g.sub(p, last), False))
            step = g.sel(g.b_lt0(g.sub(g.ONE, S), True), g.ONE, g.ZERO)
            f = g.floor(p)
            fp.append(g.sel(lo, g.ZERO, g.sel(inside, f, g.sub(last, step))))
            e.append(g.sel(lo, g.ZERO, g.sel(inside, g.sub(p, f), g.ONE)))
            nx.append(step)
        s = g.ZERO
        for i in (0, 1):
            for j in (0, 1):
                x = g.add(fp[0], nx[0]) if i else fp[0]
                y = g.add(fp[1], nx[1]) if j else fp[1]
                wt = g.mul(e[0] if i else g.sub(g.ONE, e[0]), e[1] if j else g.sub(g.ONE, e[1]))
                ti = g.add(g.mul(nc, g.add(x, g.mul(size[0], y))), ch)
                s = g.add(s, g.mul(wt, g.fn("elem:texture", (ti,))))
        return g.mul(s, L)


def split_pixel(g, I, idx, channels):
    """(channel, x, y) of index  channel + nb_colors * (x + width * y)   (without channels: x + width * y)"""
    W, nc = g.sym("width", True), g.sym("nb_colors", True)
    p, at = I.poly(idx)
    parts = {0: g.ZERO, 1: g.ZERO, 2: g.ZERO}
    for m, v in p.items():
        m = list(m)
        which = 0
        if channels:
            if nc.nid in m:
                m.remove(nc.nid)
                which = 1
        else:
            which = 1
        if which == 1 and W.nid in m:
            m.remove(W.nid)
            which = 2
        t = g.const(v)
        for i in m:
            t = g.mul(t, at[i])
        parts[which] = g.add(parts[which], t)
    return parts[0], parts[1], parts[2]


def flag_atoms(g, guard, name):
    """indices i such that the guard implies name[i] is true / false"""
    yes, no = [], []
    for v in g.bdd_vars(guard):
        kind, node = g.atoms[v]
        if kind.split("@")[0] == "elem:" + name:
            a = g.b_atom(kind, node)
            if g.implies(guard, a):
                yes.append(node)
            elif g.implies(guard, g.b_not(a)):
                no.append(node)
    return yes, no


def triangle_of(g, node, n=None):
    """k such that node == 3*k + n"""
    p0 = g.sub(node, g.const(n))
    return g.div(p0, g.const(3))


def drawn(env, err, bg, persp, cull):
    r = env.run("renderScene", err, bg, persp, cull)
    if r.dead:
        raise AnalysisError("renderScene never returns (%s)" % mode(err, bg, persp, cull))
    F = Forward(r, "image")
    return r, F


def kind_of(g, l, guard, k):
    y, n = flag_atoms(g, guard, "textured")
    if any(x is k for x in y):
        return "textured"
    if any(x is k for x in n):
        return "interpolated"
    return None


def split_cases(g, guard, k):
    """split a draw guard by the textured/shaded flags of triangle k"""
    t = g.b_atom("elem:textured", k)
    s = g.b_atom("elem:shaded", k)
    ts = g.b_and(t, s)
    return [("textured", g.b_and(guard, ts)), ("interpolated", g.b_and(guard, g.b_not(ts)))]


SWEEPS = ((0, True, 0, 1), (0, True, 1, 1), (0, True, 0, 0), (1, True, 0, 1))


def f01(c):
    env = Env(c)
    g = env.g
    c.rule("value stored for a pixel of triangle k == sum of barycentric coordinates of (x, y) times the attributes of faces[k] (per mode)")
    c.rule("every visible vertex-coloured or shaded textured triangle is drawn, exactly where its depth test passes")
    for md in SWEEPS[:3] + ((0, False, 0, 1),):
        r, F = drawn(env, *md)
        persp, cull = md[2], md[3]
        seen = {}
        for l in F.draw:
            c.count("draw stores", 1)
            val, idx, guard = F.u(l.val), F.u(l.idx), F.ub(l.guard)
            ch, x, y = split_pixel(g, r.I, idx, True)
            k = F.u(l.binders[-1][0])
            o = Oracle(g, k, persp)
            w = o.lam((x, y))
            fn = l.site.split(":")[0]
            for kind, gd in split_cases(g, guard, k):
                if gd == 0:
                    continue
                want = o.textured(w, ch) if kind == "textured" else o.color(w, ch)
                d = same(g, gd, val, want)
                c.ob("covered pixel holds the interpolated attribute of its triangle", "%s (%s, %s)" % (l.site, mode(*md), kind), d is None,
                     "" if d is None else "stored value differs from the %s attribute, e.g. when %s" % (
                         "perspective-correctly interpolated" if persp else "linearly interpolated", "; ".join(d["when"][:4])),
                     "value %s %s %s" % (mode(*md), fn, kind))
                seen.setdefault(kind, []).append((l, gd, k, o, x, y, w))
            N = [n for b, n in l.binders if b is ch]
            c.ob("every channel of the pixel is written", "%s (%s)" % (l.site, mode(*md)), len(N) == 1 and N[0] is g.sym("nb_colors", True),
                 "channel index does not run over 0..nb_colors", "channels %s %s" % (mode(*md), fn))
        completeness(c, g, md, seen, F)
    return c.finish("Value-numbering abstract interpretation of renderScene in each mode; every image store of the triangle sweep is compared "
                    "with the rendering model written independently of the code. " + ASSUME, (("draw stores", 12),))


def completeness(c, g, md, seen, F):
    """the condition under which triangle k is drawn is: visible, of that kind, and in front of the recorded depth"""
    cull = md[3]
    for kind in ("textured", "interpolated"):
        ls = seen.get(kind, [])
        if not ls:
            c.ob("visible triangles are drawn", "renderScene (%s)" % mode(*md), False, "no store draws %s triangles" % kind, "undrawn %s %s" % (mode(*md), kind))
            continue
        for l, gd, k, o, x, y, w in ls:
            t, s = g.b_atom("elem:textured", k), g.b_atom("elem:shaded", k)
            want = g.b_and(t, s) if kind == "textured" else g.b_not(t)
            if cull:
                want = g.b_and(want, o.front())
            Z = o.depth(w)
            zi = g.add(x, g.mul(g.sym("width", True), y))
            want = g.b_and(want, g.b_lt0(g.sub(Z, g.fn("elem:z_buffer", (zi,))), False))
            ok = gd == want or g.equal(g.boolnode(gd), g.boolnode(want))
            c.ob("visible triangles are drawn exactly where their depth test passes", "%s (%s, %s)" % (l.site, mode(*md), kind), ok,
                 "" if ok else "draw condition differs from: front-facing%s, %s, interpolated depth below the recorded depth" % (
                     "" if cull else " or culling off", kind), "condition %s %s %s" % (mode(*md), l.site.split(":")[0], kind))


ASSUME = ("Exact (real) arithmetic, divisions defined; value numbers are compared by random interpretation over a 31-bit prime field and "
          "conditions as decision diagrams over comparison atoms. ")


def covers(g, I, l, dims):
    """does the store l assign every element 0 .. prod(dims)-1 unconditionally?"""
    if l.kind != "store" or l.guard != 1:
        return False
    total = g.ONE
    for d in dims:
        total = g.mul(total, d)
    bs = list(l.binders)
    cur, rest = g.ONE, l.idx
    for _ in range(len(bs)):
        hit = None
        for b, N in bs:
            af = I.affine(rest, b)
            if af is not None and af[0] is cur:
                hit = (b, N, af[1])
                break
        if hit is None:
            return False
        bs = [x for x in bs if x[0] is not hit[0]]
        rest = hit[2]
        cur = g.mul(cur, hit[1])
    return rest is g.ZERO and cur is total


def undefs(g, roots):
    return sorted({n.val for n in g.walk(roots) if n.op == "fn" and n.val.startswith("undef:")})


def undef_feeds(g, val, guard):
    """undefined atoms the value really depends on where guard holds"""
    out = []
    ns = [n for n in g.walk([val, g.boolnode(guard)]) if n.op == "fn" and n.val.startswith("undef:")]
    for n in ns:
        m = {n: g.sym("_any", n.isint)}
        a = g.sel(guard, val, g.ZERO)
        b = g.sel(g.subst_bdd(guard, m), g.subst(val, m), g.ZERO)
        if not g.equal(a, b) or not g.equal_b(guard, g.subst_bdd(guard, m)):
            out.append(n.val)
    return sorted(set(out))


def d01(c):
    env = Env(c)
    g = env.g
    H, W, nc = (g.sym(x, True) for x in ("height", "width", "nb_colors"))
    c.rule("the first store of image, z_buffer and err_buffer assigns every element unconditionally")
    c.rule("no stored value, index or condition reads an element that is not initialised yet")
    c.rule("no read of an output buffer reaches back to its contents before the call")
    for md in ((0, True, 0, 1), (0, False, 0, 1), (1, True, 0, 1), (1, False, 0, 1), (0, True, 1, 1), (1, True, 1, 1), (0, True, 0, 0)):
        r, F = drawn(env, *md)
        outs = [("image", (H, W, nc)), ("z_buffer", (H, W))] + ([("err_buffer", (H, W))] if md[0] else [])
        for nm, dims in outs:
            ls = r.leaves(nm)
            ok = False
            pre = []
            for l in ls:
                if covers(g, r.I, l, dims):
                    ok = True
                    break
                pre.append(l)
            c.ob("%s is wholly determined by the call" % nm, "renderScene (%s)" % mode(*md), ok,
                 "no store assigns every element of %s unconditionally" % nm, "cover %s %s" % (mode(*md), nm))
        reads(c, g, r, "renderScene", md, [nm for nm, _ in outs])
    for md in ((0, True, 0, 1), (1, True, 0, 1)):
        r = env.run("renderScene_B", *md)
        reads(c, g, r, "renderScene_B", md, [])
    for fname in ("renderScene", "renderScene_B"):
        pass
    python_outputs(c)
    import checks_python2
    checks_python2.d01_python(c)
    return c.finish("Write-log coverage and definite-initialisation analysis of the clang AST (value-numbering abstract interpretation) for both "
                    "backgrounds, error mode, perspective and culling; syntax-tree data flow of np.empty buffers in the Python layer. " + ASSUME,
                    (("stores checked for initialised inputs", 60),))


def reads(c, g, r, fname, md, outs):
    for nm in r.arr:
        for l in r.leaves(nm):
            c.count("stores checked for initialised inputs", 1)
            u = undef_feeds(g, l.val, l.guard) if isinstance(l.val, type(g.ZERO)) and undefs(g, [l.val, g.boolnode(l.guard), l.idx]) else []
            c.ob("stored values depend on initialised data only", "%s: %s (%s)" % (nm, l.site, mode(*md)), not u,
                 "depends on uninitialised " + ", ".join(x[6:] for x in u), "undef %s %s %s" % (fname, nm, l.site.split(":")[0]))
            if outs:
                pre = sorted({n.val for n in g.walk([l.val, l.idx, g.boolnode(l.guard)]) if n.op == "fn" and n.val in ["elem:" + o for o in outs]})
                c.ob("no use of what the buffers held before the call", "%s: %s (%s)" % (nm, l.site, mode(*md)), not pre,
                     "reads earlier contents of " + ", ".join(x[5:] for x in pre), "stale %s %s" % (nm, l.site.split(":")[0]))


def python_outputs(c):
    pass


def f02(c):
    env = Env(c)
    g = env.g
    H, W = g.sym("height", True), g.sym("width", True)
    c.rule("z_buffer starts at infinity everywhere; every other store of z_buffer belongs to the triangle sweep, under Z < z_buffer, and stores that Z")
    c.rule("Z is the depth of the triangle interpolated at the pixel")
    c.rule("image and z_buffer stores of the triangle sweep come in pairs with the same pixel and the same condition")
    c.rule("a blended edge element is guarded by: depth interpolated along the edge < z_buffer at that pixel")
    for md in SWEEPS:
        err, bg, persp, cull = md
        r, F = drawn(env, *md)
        zs = r.leaves("z_buffer")
        init = [l for l in zs if not l.chain or not is_tri_loop(l)]
        rest = [l for l in zs if l not in init]
        ok = len(init) >= 1 and covers(g, r.I, init[-1], (H, W)) and init[-1].val is r.I.g.sym("inf") and (not rest or zs.index(init[-1]) < zs.index(rest[0]))
        c.ob("depth buffer starts at infinity", "renderScene (%s)" % mode(*md), ok, "" if ok else "initial depth is not infinity for every pixel", "init %s" % mode(*md))
        pairs = {}
        for l in rest:
            c.count("depth stores", 1)
            val, idx, guard = F.u(l.val), F.u(l.idx), F.ub(l.guard)
            _, x, y = split_pixel(g, r.I, idx, False)
            k = F.u(l.binders[-1][0])
            fn = l.site.split(":")[0]
            if has_elem(g, l.binders[-1][0], ("elem:sum_depth.index",)) or r_sorted(g, guard):
                c.ob("only the triangle sweep writes depth", l.site, False, "depth written while drawing silhouette edges", "edge depth %s" % fn)
                continue
            o = Oracle(g, k, persp)
            Z = o.depth(o.lam((x, y)))
            d = same(g, guard, val, Z)
            c.ob("recorded depth is the triangle's depth at the pixel", "%s (%s)" % (l.site, mode(*md)), d is None,
                 "" if d is None else "stored depth differs from the interpolated depth", "depth %s %s" % (mode(*md), fn))
            test = g.b_lt0(g.sub(val, g.fn("elem:z_buffer", (idx,))), False)
            c.ob("depth is only ever lowered", "%s (%s)" % (l.site, mode(*md)), g.implies(guard, test),
                 "store is not guarded by: new depth < recorded depth", "test %s %s" % (mode(*md), fn))
            pairs[idx.nid, guard] = pairs.get((idx.nid, guard), 0) + 1
            completeness_z(c, g, md, l, guard, o, k, val, idx)
        for l in F.draw:
            idx, guard = F.u(l.idx), F.ub(l.guard)
            ch, x, y = split_pixel(g, r.I, idx, True)
            zi = g.add(x, g.mul(W, y))
            ok = any(k[0] == zi.nid and k[1] == guard for k in pairs) or any(
                n == zi.nid and g.equal_b(b, guard) for n, b in pairs)
            c.ob("colour and depth of a pixel come from the same triangle", "%s (%s)" % (l.site, mode(*md)), ok,
                 "" if ok else "colour stored without recording the depth under the same condition", "pair %s %s" % (mode(*md), l.site.split(":")[0]))
            c.count("colour stores", 1)
        idxs = set()
        for l in F.draw:
            ch, x, y = split_pixel(g, r.I, F.u(l.idx), True)
            idxs.add((g.add(x, g.mul(W, y)).nid, F.ub(l.guard)))
        for key in pairs:
            ok = key in idxs or any(n == key[0] and g.equal_b(b, key[1]) for n, b in idxs)
            c.ob("colour and depth of a pixel come from the same triangle", "z_buffer stores (%s)" % mode(*md), ok,
                 "depth recorded without storing the colour under the same condition", "pair z %s" % mode(*md))
        # background elsewhere: the initial image
        edge_guards(c, g, env, md)
    return c.finish("Write-log analysis of z_buffer, image and err_buffer over the forward modes. " + ASSUME, (("depth stores", 12), ("blend stores", 20)))


def completeness_z(c, g, md, l, guard, o, k, Z, idx):
    t, s = g.b_atom("elem:textured", k), g.b_atom("elem:shaded", k)
    want = g.b_and(g.b_or(g.b_not(t), s), g.b_lt0(g.sub(Z, g.fn("elem:z_buffer", (idx,))), False))
    if md[3]:
        want = g.b_and(want, o.front())
    else:
        return
    ok = g.implies(guard, want)
    ok2 = False
    for kind in (g.b_and(t, s), g.b_not(t)):
        ww = g.b_and(want, kind)
        ok2 = ok2 or guard == ww or g.equal_b(guard, ww)
    c.ob("every visible triangle takes part in the depth test", "%s (%s)" % (l.site, mode(*md)), ok2,
         "" if ok2 else "depth store condition is not: front-facing and nearer than the recorded depth", "zcond %s %s" % (mode(*md), l.site.split(":")[0]))


def is_tri_loop(l):
    N = l.chain[-1].N if l.chain else None
    return N is not None and N.op == "sym" and N.val == "nb_triangles"


def r_sorted(g, guard):
    """does the condition mention triangles in sorted order (edge sweep)?"""
    y, n = flag_atoms(g, guard, "edgeflags")
    return bool(y)


def blend_facts(c, g, r, F, l, persp):
    """for one blended store: (n, k, oracle, x, y, channel, guard, value, index) or None when the flag is missing"""
    val, idx, guard = F.u(l.val), F.u(l.idx), F.ub(l.guard)
    y, no = flag_atoms(g, guard, "edgeflags")
    if len(y) != 1:
        return None
    e = y[0]
    p, at = r.I.poly(e)
    for n in range(3):
        k = triangle_of(g, e, n)
        q, at = r.I.poly(k)
        if all(v.denominator == 1 for v in q.values()):
            return n, k, Oracle(g, k, persp), val, idx, guard
    return None


def edge_guards(c, g, env, md):
    err, bg, persp, cull = md
    r = env.run("renderScene", *md)
    out = "err_buffer" if err else "image"
    F = Forward(r, out)
    for l in F.blend:
        c.count("blend stores", 1)
        b = blend_facts(c, g, r, F, l, persp)
        fn = l.site.split(":")[0]
        if b is None:
            c.ob("a blended element belongs to one flagged edge", l.site, False, "edge flag not tested", "flag %s %s" % (mode(*md), fn))
            continue
        n, k, o, val, idx, guard = b
        _, x, y = split_pixel(g, r.I, idx, not err)
        w, dist = o.edge(n, (x, y))
        zi = g.add(x, g.mul(g.sym("width", True), y))
        test = g.b_lt0(g.sub(o.depth(w), g.fn("elem:z_buffer", (zi,))), False)
        ok = g.implies(guard, test) or g.equal_b(g.b_and(guard, test), guard)
        c.ob("edges blend only in front of the recorded depth", "%s edge %d (%s)" % (l.site, n, mode(*md)), ok,
             "" if ok else "not guarded by: depth along the edge < recorded depth of the pixel", "edge test %s %s %d" % (mode(*md), fn, n))
        toks = sorted({x.val for x in g.walk([g.boolnode(l.guard)]) if x.op == "fn" and x.val.startswith("elem:z_buffer@")})


def f03(c):
    env = Env(c)
    g = env.g
    c.rule("blended value == t * previous + (1 - t) * edge value, t = outward distance / sigma, edge value interpolated between the edge's two vertices")
    c.rule("an edge is blended iff sigma > 0, its triangle is front-facing, its flag is set and it is nearer than the recorded depth")
    for md in ((0, True, 0, 1), (0, True, 1, 1), (1, True, 0, 1), (1, True, 1, 1), (0, True, 0, 0)):
        edges(c, g, env, md, True)
    return c.finish("Every store of the silhouette sweep (image and error mode, linear and perspective) is compared with the blending model "
                    "written independently of the code. " + ASSUME, (("blend stores", 24),))


def edges(c, g, env, md, values):
    err, bg, persp, cull = md
    r = env.run("renderScene", *md)
    if r.dead:
        raise AnalysisError("renderScene never returns")
    out = "err_buffer" if err else "image"
    F = Forward(r, out)
    sigma = g.sym("sigma")
    nc = g.sym("nb_colors", True)
    found = set()
    for l in F.blend:
        c.count("blend stores", 1)
        fn = l.site.split(":")[0]
        b = blend_facts(c, g, r, F, l, persp)
        if b is None:
            c.ob("a blended element belongs to one flagged edge", l.site, False, "edge flag not tested", "flag %s %s" % (mode(*md), fn))
            continue
        n, k, o, val, idx, guard = b
        ch, x, y = split_pixel(g, r.I, idx, not err)
        w, dist = o.edge(n, (x, y))
        t = g.div(dist, sigma)
        old = g.fn("elem:" + out, (idx,))
        H = g.sym("_H_old")
        T = g.subst(g.tangent(val, lambda q: H if q is old else None, {}), {H: g.ONE})
        d = same(g, guard, T, t)
        c.ob("transmittance is the outward distance over the blend width", "%s edge %d (%s)" % (l.site, n, mode(*md)), d is None,
             "" if d is None else "weight of the previous value is not distance/sigma for corners %d,%d, e.g. when %s" % (n, (n + 1) % 3, "; ".join(d["when"][:3])),
             "transmittance %s %s %d" % (mode(*md), fn, n))
        tt, ss = g.b_atom("elem:textured", k), g.b_atom("elem:shaded", k)
        for kind, gd in split_cases(g, guard, k):
            if gd == 0:
                continue
            found.add((n, kind))
            if values:
                f = o.textured if kind == "textured" else o.color
                if err:
                    pt = g.fn("pt", (nc,), isint=True)
                    ob = g.fn("elem:obs", (g.add(pt, g.mul(nc, idx)),))
                    df = g.sub(f(w, pt), ob)
                    C = g.fn("cnt", (nc,), isint=True)
                    C = g.mul(C, g.mul(df, df))
                else:
                    C = f(w, ch)
                want = g.add(g.mul(t, old), g.mul(g.sub(g.ONE, t), C))
                d = same(g, gd, val, want)
                c.ob("blended value is t*previous + (1-t)*edge value", "%s edge %d (%s, %s)" % (l.site, n, mode(*md), kind), d is None,
                     "" if d is None else "differs, e.g. when %s" % "; ".join(d["when"][:4]), "blend %s %s %s %d" % (mode(*md), fn, kind, n))
            want = g.b_and(o.front(), g.b_lt0(g.neg(sigma), False))
            want = g.b_and(want, g.b_atom("elem:edgeflags", g.add(g.mul(g.const(3), k), g.const(n))))
            want = g.b_and(want, g.b_and(tt, ss) if kind == "textured" else g.b_not(g.b_and(tt, ss)))
            zi = g.add(x, g.mul(g.sym("width", True), y))
            want = g.b_and(want, g.b_lt0(g.sub(o.depth(w), g.fn("elem:z_buffer", (zi,))), False))
            ok = gd == want or g.equal_b(gd, want)
            c.ob("flagged edges of front-facing triangles are blended exactly where they are in front", "%s edge %d (%s, %s)" % (l.site, n, mode(*md), kind), ok,
                 "" if ok else "blend condition differs from: sigma > 0, front-facing, flag %d, nearer than recorded depth" % n,
                 "condition %s %s %s %d" % (mode(*md), fn, kind, n))
        if not err:
            N = [q for bb, q in l.binders if bb is ch]
            c.ob("every channel of the pixel is blended", "%s edge %d (%s)" % (l.site, n, mode(*md)), len(N) == 1 and N[0] is nc,
                 "channel index does not run over 0..nb_colors", "channels %s %s" % (mode(*md), fn))
    for n in range(3):
        for kind in ("textured", "interpolated"):
            c.ob("each of the three edges is drawn", "edge %d, %s (%s)" % (n, kind, mode(*md)), (n, kind) in found, "never blended",
                 "missing %s %d %s" % (mode(*md), n, kind))


def s03(c):
    from pyx import extern_functions
    env = Env(c)
    g = env.g
    c.rule("every heap object is deleted once, with delete[], before the function returns or throws")
    c.rule("no access to a heap object that may have been deleted")
    c.rule("every extern C++ function that can throw is declared 'except +' for Python")
    for fname in ("renderScene", "renderScene_B"):
        for err in (0, 1):
            for persp in (0, 1):
                for cull in (0, 1):
                    md = (err, True, persp, cull)
                    r = env.run(fname, *md)
                    heap = [o for o in r.I.objs.values() if o.heap]
                    c.count("heap allocations tracked", len(heap))
                    where = "%s (%s)" % (fname, mode(*md))
                    if not r.dead:
                        left = sorted({r.I.objs[i].name + " allocated at " + str(r.I.objs[i].site) for i, b in r.st.live.items() if b != 0})
                        c.ob("temporaries are released on return", where, not left, "not released: " + ", ".join(left),
                             "leak %s" % ",".join(sorted({x.split(":")[1] if ":" in x else x for x in left})))
                    bad = [e for e in r.I.events if e[0] in ("leak-in-loop", "delete-in-loop", "bad-delete", "double-delete", "delete-kind", "use-after-delete")]
                    c.ob("temporaries are released exactly once", where, not bad,
                         "; ".join("%s of %s at %s" % (e[0], e[1].name, e[3]) for e in bad[:4]),
                         "heap %s" % ",".join(sorted({"%s %s" % (e[0], e[3].split(":")[0]) for e in bad})))
                    for site, pc, leaked, ctx, frames in r.I.throws:
                        c.count("refusals", 1)
                        c.ob("temporaries are released when refusing", "%s via %s (%s)" % (site, " > ".join(frames), mode(*md)), not leaked,
                             "still allocated: " + ", ".join(o.name for o in leaked), "throw leak %s" % site.split(":")[0])
    thrown = True
    for name, exc, line in extern_functions(c.repo):
        c.count("extern declarations", 1)
        c.ob("native errors surface as Python exceptions", "differentiable_renderer_cython.pyx: %s" % name, exc,
             "declared without 'except +': a C++ exception would abort the interpreter", "extern %s" % name)
    return c.finish("Typestate of heap objects (allocated / released) along the abstract runs of both entry points in all eight mode combinations, "
                    "and the exception specification of the Cython declarations. ", (("heap allocations tracked", 40), ("refusals", 8), ("extern declarations", 2)))


def s04(c):
    env = Env(c)
    g = env.g
    c.rule("renderScene_B refuses (never returns) when perspective_correct is set or backface_culling is off, before it writes any gradient")
    for err in (0, 1):
        for bg in (True, False):
            for persp, cull in ((1, 1), (0, 0), (1, 0)):
                md = (err, bg, persp, cull)
                r = env.run("renderScene_B", *md)
                c.ob("unsupported gradients are refused", "renderScene_B (%s)" % mode(*md), r.dead, "returns normally", "accepts %s" % mode(*md))
                c.count("refused modes", 1)
            r = env.run("renderScene_B", err, bg, 0, 1)
            c.ob("supported gradients are computed", "renderScene_B (%s)" % mode(err, bg, 0, 1), not r.dead, "always refuses", "refuses %d" % err)
    s04_python(c)
    return c.finish("Reachability of the normal exit of renderScene_B under each concrete mode; data flow of the mode settings from the Python "
                    "entry points to the native call. ", (("refused modes", 6),))


def s04_python(c):
    import checks_python2
    checks_python2.s04_python(c)


def c02_native(c, env):
    g = env.g
    flag = "flag:integer_pixel_centers"
    half = g.const(Fraction(1, 2))

    def setflag(v):
        def fatom(kind, node, go):
            if kind == flag:
                return v
            if kind.startswith("elem:") and "@" in kind:
                return g.b_atom(kind.split("@")[0], go(node))
            return None

        def fnode(r):
            if r.val.startswith("elem:"):
                base = r.val.split("@")[0]
                x = g.fn(base, r.args, r.isint)
                return x
            return None
        return rewrite(g, None, fnode, fatom)

    def shift():
        def fatom(kind, node, go):
            if kind == flag:
                return 1
            if kind.startswith("elem:") and "@" in kind:
                return g.b_atom(kind.split("@")[0], go(node))
            return None

        def fnode(r):
            if r.val.startswith("elem:"):
                base = r.val.split("@")[0]
                x = g.fn(base, r.args, r.isint)
                return g.sub(x, half) if base == "elem:ij" else x
            return None
        return rewrite(g, None, fnode, fatom)

    A, AB = shift()
    B, BB = setflag(0)
    c.rule("each write of a run with half-integer pixel centres equals the write of the run with integer pixel centres after moving every vertex by -1/2")
    for fname, md in (("renderScene", (0, True, 0, 1)), ("renderScene", (0, True, 1, 1)), ("renderScene", (1, True, 0, 1)), ("renderScene", (0, True, 0, 0)),
                      ("renderScene_B", (0, True, 0, 1)), ("renderScene_B", (1, True, 0, 1))):
        r = env.run(fname, *md)
        for nm in sorted(r.arr):
            for l in r.leaves(nm):
                c.count("writes compared under both conventions", 1)
                roots = [l.val, l.idx, g.boolnode(l.guard)] + [x for p in l.binders for x in p]
                ok = all(A(x) is B(x) or g.equal(A(x), B(x)) for x in roots)
                c.ob("the pixel-centre convention only moves vertices by half a pixel", "%s: %s (%s, %s)" % (nm, l.site, fname, mode(*md)), ok,
                     "" if ok else "the two conventions differ by more than a half-pixel shift of the vertices",
                     "shift %s %s %s" % (fname, nm, l.site.split(":")[0]))


def c02(c):
    env = Env(c)
    c02_native(c, env)
    g = env.g
    c.rule("with integer pixel centres the pixel at column x, row y is evaluated at point (x, y) of the vertex coordinates")
    for md in SWEEPS[:3]:
        r, F = drawn(env, *md)
        for l in r.leaves("z_buffer"):
            if not is_tri_loop(l):
                continue
            val, idx, guard = F.u(l.val), F.u(l.idx), F.ub(l.guard)
            _, x, y = split_pixel(g, r.I, idx, False)
            o = Oracle(g, F.u(l.binders[-1][0]), md[2])
            d = same(g, guard, val, o.depth(o.lam((x, y))))
            c.ob("pixel (x, y) is evaluated at vertex coordinates (x, y)", "%s (%s)" % (l.site, mode(*md)), d is None,
                 "depth stored for a pixel is not the depth at its centre", "anchor %s %s" % (mode(*md), l.site.split(":")[0]))
    c02_python(c)
    return c.finish("Relational comparison of the write logs of renderScene and renderScene_B under both values of integer_pixel_centers. " + ASSUME,
                    (("writes compared under both conventions", 60),))


def c02_python(c):
    import checks_python2
    checks_python2.c02_python(c)


def c03(c):
    env = Env(c)
    g = env.g
    c.rule("the edge drawn for flag 3*k+n joins corners n and n+1 of face k and is blended outward of that face")
    c.rule("an edge is drawn iff sigma > 0, its face is front-facing (orientation flag) and its flag is set")
    for md in ((0, True, 0, 1), (1, True, 0, 1)):
        edges(c, g, env, md, False)
    c03_python(c)
    return c.finish("Write-log analysis of the silhouette sweep for edge numbering and orientation. " + ASSUME, (("blend stores", 12),))


def c03_python(c):
    import checks_python2
    checks_python2.c03_python(c)
