"""G01-G05: the native backward pass is the exact adjoint of the native forward pass."""
from gvn import Graph, AnalysisError, show
from native import Run, load_program, PARAMS, ARRAYS, has_elem, untoken, unstop
from adjoint import Forward, Backward, addall

KNOWN_INPUTS = set(ARRAYS) | {"z_buffer", "obs"}


class Pair:
    """forward and backward runs of the native entry points for one mode"""

    def __init__(self, prog, g, err, bg=True):
        self.g, self.err, self.prog, self._stopped = g, err, prog, {}
        self.f = Run(prog, g, "renderScene", err, bg)
        self.b = Run(prog, g, "renderScene_B", err, bg)
        if self.f.dead or self.b.dead:
            raise AnalysisError("a native entry point never returns normally")
        self.out = "err_buffer" if err else "image"
        self.outb = self.out + "_b"
        self.F = Forward(self.f, self.out)
        self.FI = Forward(self.f, "image") if err else self.F
        self.B = Backward(self.b, self.F, self.out)
        self.grads = {p: self.B.split(self.b.leaves(p + "_b")) for p in PARAMS}

    # stores whose derivative the backward pass is known to lose (see known_findings.txt), by forward function and variable
    LOST = (("rasterize_edge_interpolated_error", "A0y"),)

    def lost(self, c, part, param, up, b):
        """is b the derivative of the forward pass with the values of one of these stores taken as constants?"""
        g = self.g
        for var in self.LOST:
            if part != "edge" or param not in ("colors", "ij"):
                continue
            if var not in self._stopped:
                r = Run(self.prog, g, "renderScene", self.err, True, stop=frozenset([var]))
                self._stopped[var] = Forward(r, self.out) if r.I.stopped else None
            F2 = self._stopped[var]
            if F2 is None:
                # the forward code no longer has this store: the residual cannot be told apart any more
                c.notes.append("%s.%s not found: residual of this equation not resolved further" % var)
                return "%s.%s" % var
            un, _ = unstop(g)
            a = un(addall(g, F2.functional(F2.blend, param, up, False)))
            if g.equal(a, b):
                return "%s.%s" % var
        return None

    # upstream of the triangle sweep: the array (argument or temporary) the backward triangle sweep reads gradients from
    def tri_source(self, terms):
        g = self.g
        names = set()
        for l, t in terms:
            for n in g.walk([t]):
                if n.op == "fn" and n.val.startswith("elem:"):
                    nm = n.val[5:].split("@")[0]
                    if nm not in KNOWN_INPUTS and not nm.startswith(tuple(k + "." for k in KNOWN_INPUTS)):
                        names.add(nm)
        return names


def sites(ls):
    return sorted({l.site.split(":")[0] for l in ls})


def compare(c, p, rule, part, param, fl, bl, up, z):
    """one adjoint equation; returns True when it holds"""
    g = p.g
    ft = p.FI.functional(fl, param, up, z) if part == "triangle" else p.F.functional(fl, param, up, z)
    bt = p.B.functional(bl, param)
    a, b = addall(g, ft), addall(g, bt)
    c.count("forward contributions", len(ft))
    c.count("gradient writes", len(bt))
    mode = "error" if p.err else "image"
    where = "%s mode, %s: d/d%s forward %s, backward %s" % (
        mode, part, param, ",".join(sites([l for l, _ in ft])) or "-", ",".join(sites([l for l, _ in bt])) or "-")
    key = "%s %s %s" % (mode, part, param)
    if not ft:
        raise AnalysisError("no forward contribution of %s found (%s)" % (param, key))
    w = None if a is b else g.differs(a, b)
    detail = ""
    if w is not None:
        name = p.lost(c, part, param, up, b) if p.err else None
        if name:
            key += " lost=" + name
        detail = "gradient differs from the derivative of the forward value, e.g. when %s" % "; ".join(w["when"][:4])
    c.ob(rule, where, w is None, detail, key)
    return w is None


def pairs(c, errs):
    prog = load_program(c.repo)
    out = []
    g = Graph()
    for e in errs:
        p = Pair(prog, g, e)
        out.append(p)
        for r in (p.f, p.b):
            c.count("native functions analysed", len(r.I.stats["functions"]))
            c.count("loops summarised", r.I.stats["loops"])
            c.count("memory accesses", len(r.I.accesses))
    return out


RULE_ADJ = ("sum over drawn elements of upstream * d(forward value)[H] == sum over gradient writes of increment * H, "
            "for an arbitrary direction H of each parameter array (value numbering over exact arithmetic)")


def triangle_part(c, p):
    """adjoint of the interior (triangle sweep)"""
    g = p.g
    names = set()
    for param in PARAMS:
        names |= p.tri_source(p.B.functional(p.grads[param][0], param))
    if p.err == 0:
        if names - {"image_b"}:
            c.ob("gradients of the triangle sweep come from the upstream image gradient", "renderScene_B", False,
                 "reads " + ", ".join(sorted(names - {"image_b"})), "triangle source " + ",".join(sorted(n.split(":")[0] for n in names)))
        src = "image_b"
    else:
        tmp = [n for n in names if n.startswith("heap:")]
        if len(tmp) != 1 or len(names) != 1:
            raise AnalysisError("error mode: the triangle sweep should read one temporary image gradient, found %s" % sorted(names))
        src = tmp[0]
    up = lambda idx, l: g.fn("elem:" + src, (idx,))
    for param in PARAMS:
        compare(c, p, RULE_ADJ, "triangle", param, p.FI.draw, p.grads[param][0], up, True)
    return src


def edge_part(c, p):
    g = p.g
    up = lambda idx, l: g.fn("elem:" + p.outb, (idx,))
    for param in PARAMS:
        compare(c, p, RULE_ADJ, "edge", param, p.F.blend, p.grads[param][1], up, False)


def match_blend(c, p):
    """pairs (forward blend leaf, backward leaf of the restored buffer, backward leaf of the upstream buffer)"""
    g = p.g
    bl = [l for l in p.b.leaves(p.out)]
    ul = [l for l in p.b.leaves(p.outb) if l.chain and l.chain[-1] in p.B.edge_loops]
    out = []
    used = set()
    usedu = set()
    for f in p.F.blend:
        fi, fg = p.F.u(f.idx), p.F.ub(f.guard)
        m = u = None
        for i, l in enumerate(bl):
            if i not in used and g.equal(p.B.R(l.idx), fi) and g.equal_b(p.B.RB(l.guard), fg):
                m = i
                break
        for i, l in enumerate(ul):
            if i not in usedu and g.equal(p.B.R(l.idx), fi) and g.equal_b(p.B.RB(l.guard), fg):
                u = i
                break
        if m is not None:
            used.add(m)
        if u is not None:
            usedu.add(u)
        out.append((f, m, u))
    return out, bl, ul, used, usedu


def transmit(c, p):
    """upstream gradient handed on behind a blended edge: transmittance times what it was"""
    g = p.g
    ms, bl, ul, used, usedu = match_blend(c, p)
    c.rule("each blended element's upstream gradient is multiplied by d(blended value)/d(previous value), on exactly the blended elements")
    for f, m, u in ms:
        key = "transmittance %s" % f.site.split(":")[0]
        if u is None:
            c.ob("upstream gradient scaled by the transmittance", f.site, False,
                 "no backward update of %s under the same coverage and visibility conditions" % p.outb, key + " missing")
            continue
        fi, fg = p.F.u(f.idx), p.F.ub(f.guard)
        old = g.fn("elem:" + p.out, (fi,))
        H = g.sym("_H_old")
        T = g.tangent(p.F.u(f.val), lambda n: H if n is old else None, {})
        T = g.subst(T, {H: g.ONE})
        want = g.mul(T, g.fn("elem:" + p.outb, (fi,)))
        l = ul[u]
        if l.kind == "acc":
            got = g.add(g.fn("elem:" + p.outb, (fi,)), p.B.R(l.val))
        else:
            got = p.B.R(l.val)
        w = None if got is want else g.differs(g.sel(fg, got, g.ZERO), g.sel(fg, want, g.ZERO))
        c.ob("upstream gradient scaled by the transmittance", f.site + " / " + l.site, w is None,
             "" if w is None else "stored upstream gradient is not transmittance * upstream", key)
    for i, l in enumerate(ul):
        if i not in usedu:
            c.ob("upstream gradient scaled by the transmittance", l.site, False,
                 "upstream gradient changed where no edge was blended", "transmittance extra " + l.site.split(":")[0])


def restore(c, p):
    """un-blending restores the previous value; same draws; reverse order"""
    g = p.g
    ms, bl, ul, used, usedu = match_blend(c, p)
    mode = "error" if p.err else "image"
    for f, m, u in ms:
        name = f.site.split(":")[0]
        if m is None:
            c.ob("every forward blend is undone under the same conditions", f.site, False,
                 "no backward write restores this blend under the same coverage and visibility conditions", mode + " undo missing " + name)
            continue
        c.ob("every forward blend is undone under the same conditions", f.site + " / " + bl[m].site, True)
        fi, fg = p.F.u(f.idx), p.F.ub(f.guard)
        old = g.fn("elem:" + p.out, (fi,))
        got = p.B.R(bl[m].val)
        if bl[m].kind == "acc":
            raise AnalysisError("restoration by accumulation")
        w = None if got is old else g.differs(g.sel(fg, got, g.ZERO), g.sel(fg, old, g.ZERO))
        c.ob("un-blending restores the value the buffer had before the edge was drawn", bl[m].site, w is None,
             "" if w is None else "value after un-blending differs from the value before blending", mode + " restore " + name)
    for i, l in enumerate(bl):
        if i not in used:
            c.ob("every forward blend is undone under the same conditions", l.site, False,
                 "the buffer is changed where the forward pass blended nothing", mode + " undo extra " + l.site.split(":")[0])
    # order
    n = 0
    for i in range(len(ms)):
        for j in range(i + 1, len(ms)):
            a, b = ms[i], ms[j]
            if a[1] is None or b[1] is None:
                continue
            if g.b_and(p.F.ub(a[0].guard), p.F.ub(b[0].guard)) == 0:
                continue
            n += 1
            c.ob("edges of one triangle are undone in reverse drawing order", "%s, %s" % (bl[a[1]].site, bl[b[1]].site), a[1] > b[1],
                 "edge drawn first is undone first", mode + " order within triangle")
    outer = []
    for f, m, u in ms:
        if m is None:
            continue
        lf, lb = f.chain[-1], bl[m].chain[-1]
        if (lf, lb) not in outer:
            outer.append((lf, lb))
    for lf, lb in outer:
        c.ob("triangles are undone in reverse drawing order", "loops %s / %s" % (lf.fn, lb.fn), lf.direction == -lb.direction,
             "forward and backward edge sweeps run in the same direction", mode + " order of triangles")
        # each element is blended at most once per edge draw
    if not ms:
        raise AnalysisError("no edge sweep found")
    c.count("blend pairs", len(ms))
    c.count("ordered pairs", n)


def visited(c, p):
    """the triangle sweep of the backward pass visits the same pixels under the same conditions"""
    g = p.g
    mode = "error" if p.err else "image"
    fw = {}
    for l in p.FI.draw:
        k = (p.FI.z(l.idx).nid)
        fw[k] = g.b_or(fw.get(k, 0), p.FI.zb(l.guard))
    return fw


# ------------------------------------------------------------------ entry points

ASSUME = ("Exact (real) arithmetic; every division is defined; depth ties between triangles are excluded; "
          "value numbers are compared as rational functions by random interpretation over a 31-bit prime field, "
          "conditions as decision diagrams over comparison atoms. ")


def g01(c):
    c.rule(RULE_ADJ)
    (p,) = pairs(c, (0,))
    triangle_part(c, p)
    return c.finish("Abstract interpretation (value-numbering domain, loop summarisation) of renderScene and renderScene_B from the clang "
                    "AST, then term equality of the forward derivative and the gradient writes of the triangle sweep. " + ASSUME,
                    (("forward contributions", 10), ("gradient writes", 10)))


def g02(c):
    c.rule(RULE_ADJ)
    (p,) = pairs(c, (0,))
    edge_part(c, p)
    transmit(c, p)
    return c.finish("As G01, for the silhouette-edge sweep and the transmittance applied to the upstream gradient. " + ASSUME,
                    (("forward contributions", 10), ("gradient writes", 10)))


def g03(c):
    c.rule(RULE_ADJ)
    (p,) = pairs(c, (1,))
    src = triangle_part(c, p)
    edge_part(c, p)
    transmit(c, p)
    initial_error_gradient(c, p, src)
    return c.finish("As G01/G02 for the antialiased error buffer; the temporary image gradient is shown to be the derivative of the "
                    "initial error buffer. " + ASSUME, (("forward contributions", 20), ("gradient writes", 20)))


def initial_error_gradient(c, p, src):
    g = p.g
    init = [l for l in p.F.init]
    if not init:
        raise AnalysisError("initial value of err_buffer not found")
    obj = [o for o in p.b.I.objs.values() if o.name == src]
    if len(obj) != 1 or obj[0].id not in p.b.st.mem:
        raise AnalysisError("temporary image gradient not found")
    ls = p.b.flat(p.b.st.mem[obj[0].id].entries(), (), (), 1)
    first = [l for l in ls if not (l.chain and l.chain[-1].N is not None and l.chain[-1].N.op == "sym" and l.chain[-1].N.val == "nb_triangles")]
    c.rule("temporary image gradient[pixel, channel] == err_buffer_b[pixel] * d err_buffer[pixel] / d image[pixel, channel]")
    if len(init) != 1 or init[0].guard != 1 or init[0].kind != "store":
        raise AnalysisError("unexpected initialisation of err_buffer")
    fi = init[0]
    u, _ = untoken(g)
    val, idx = u(fi.val), u(fi.idx)
    nc = g.sym("nb_colors", True)
    pt = g.fn("pt", (nc,), isint=True)
    ims = [n for n in g.walk([val]) if n.op == "fn" and n.val == "elem:image"]
    if len(ims) != 1:
        raise AnalysisError("initial error does not depend on one image element per channel")
    im = ims[0]
    H = g.sym("_H_im")
    cnt = g.fn("cnt", (nc,), isint=True)
    d = g.subst(g.tangent(val, lambda n: H if n is im else None, {}), {H: g.ONE})
    d = g.div(d, cnt)
    want = g.mul(d, g.fn("elem:err_buffer_b", (idx,)))
    N = fi.binders[-1][1]
    pix = g.sym("_pixel", True)
    ch = g.sym("_channel", True)
    m = {fi.binders[-1][0]: pix, pt: ch}
    want, widx = g.subst(want, m), g.subst(im.args[0], m)
    if not first:
        c.ob("initial image gradient of the error buffer", src, False, "never initialised", "error init missing")
        return
    l = first[-1]
    ok = False
    if len(first) == 1 and l.guard == 1 and l.kind == "store":
        bs = [b for b, _ in l.binders]
        Ns = [n for _, n in l.binders]
        lval, lidx = u(l.val), u(l.idx)
        if len(bs) == 2:
            for a, b in ((0, 1), (1, 0)):
                if Ns[a] is nc:
                    mm = {bs[a]: ch, bs[b]: pix}
                    if g.subst(lidx, mm) is widx and g.subst(lval, mm) is want and Ns[b] is N:
                        ok = True
        elif len(bs) == 1:
            # flat loop over elements: compare at index pixel*nb_colors + channel
            mm = {bs[0]: widx}
            ok = g.subst(lidx, mm) is widx and g.subst(lval, mm) is want and Ns[0] is g.mul(nc, N)
    c.ob("initial image gradient of the error buffer", l.site, ok, "" if ok else "value or range differs from the derivative of the initial error", "error init")


def g04(c):
    ps = pairs(c, (0, 1))
    c.rule("every gradient write adds a value that does not depend on any gradient element: no overwrite, no lost update")
    for p in ps:
        g = p.g
        mode = "error" if p.err else "image"
        for param in PARAMS:
            for part, ls in zip(("triangle", "edge"), p.grads[param]):
                for l, d, idx, gd in p.B.increments(ls, param):
                    bad = [n for n in g.walk([d]) if n.op == "fn" and n.val.startswith("elem:%s_b" % param)]
                    if bad:
                        # does the increment really depend on them?
                        m = {n: g.sym("_other%d" % i) for i, n in enumerate(bad)}
                        if g.differs(g.sel(gd, d, g.ZERO), g.sel(gd, g.subst(d, m), g.ZERO)) is None:
                            bad = []
                    c.count("gradient writes", 1)
                    c.ob("gradient write only adds", "%s (%s mode, %s_b)" % (l.site, mode, param), not bad,
                         "" if not bad else "the stored value keeps or loses other contributions depending on which elements coincide",
                         "%s %s %s_b" % (mode, l.site.split(":")[0], param))
            # nothing else writes the array before the sweeps
    return c.finish("Write-log analysis of every store to ij_b, uv_b, shade_b, colors_b and texture_b over both native backward modes, "
                    "with may-alias reasoning between vertex, uv and texel indices. " + ASSUME, (("gradient writes", 60),))


def g05(c):
    ps = pairs(c, (0, 1))
    c.rule("each forward blend has one backward counterpart with equal index and equal path condition")
    c.rule("substituting the forward value into the backward restoration yields the previous value")
    c.rule("edge numbers within a triangle and triangles in the sorted sweep are visited in opposite order")
    for p in ps:
        restore(c, p)
        same_draws(c, p)
    return c.finish("As G01 on write logs of the blended buffer, in image and error mode. " + ASSUME, (("blend pairs", 12),))


def same_draws(c, p):
    """the triangle sweep of the backward pass covers exactly the forward pixels: conditions under which any gradient is
    written equal the conditions under which the pixel was drawn (checked through the gradient functionals)"""
    g = p.g
    mode = "error" if p.err else "image"
    src = None
    for param in ("colors", "shade"):
        up = lambda idx, l: g.fn("probe", (idx,))
    # forward: conditions of draws, keyed by pixel index and kind
    names = set()
    for param in PARAMS:
        names |= p.tri_source(p.B.functional(p.grads[param][0], param))
    if len(names) != 1:
        raise AnalysisError("upstream of the triangle sweep: %s" % sorted(names))
    src = names.pop()
    up = lambda idx, l: g.fn("elem:" + src, (idx,))
    for param in ("colors", "shade"):
        compare(c, p, "the backward triangle sweep visits the pixels the forward sweep drew", "triangle", param, p.FI.draw,
                p.grads[param][0], up, True)
