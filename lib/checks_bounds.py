"""Memory safety of the native passes: every array access of every mode lies inside its array."""
from functools import reduce
from gvn import Graph, AnalysisError, show
from native import Run, load_program, SIZES
from bounds import Bounds

MODES = [("renderScene", e, b, p, k) for k in (0, 1) for p in (0, 1) for e in (0, 1) for b in (True, False)] + \
        [("renderScene_B", e, b, 0, 1) for e in (0, 1) for b in (True, False)]
QUICK = [m for m in MODES if m[0] == "renderScene_B" and m[2] or m[0] == "renderScene" and (m[2] and m[4] == 1 or not m[2] and not m[1] and not m[3] and m[4] == 0)]


def sizes(g):
    """element counts of the arrays handed over, as the Python and Cython layers enforce them (property S02)"""
    S = {n: g.sym(n, True) for n in SIZES}
    H, W, C, NT, NV, NU, TH, TW = [S[k] for k in "height width nb_colors nb_triangles nb_vertices nb_uv texture_height texture_width".split()]

    def m(*a):
        return reduce(g.mul, a)
    two, three = g.const(2), g.const(3)
    size = dict(faces=m(three, NT), faces_uv=m(three, NT), depths=NV, uv=m(two, NU), ij=m(two, NV), shade=NV, colors=m(NV, C),
                edgeflags=m(three, NT), textured=NT, shaded=NT, texture=m(TH, TW, C), background_image=m(H, W, C), background_color=C,
                image=m(H, W, C), z_buffer=m(H, W), obs=m(H, W, C), err_buffer=m(H, W), image_b=m(H, W, C), err_buffer_b=m(H, W))
    for k in ("uv", "ij", "shade", "colors", "texture"):
        size[k + "_b"] = size[k]
    return S, size


def prover(g):
    S, size = sizes(g)

    def facts(a):
        if a.op == "sym" and a.val in SIZES:
            out = [(a, False)]
            if a.val.startswith("texture_"):
                out.append((g.sub(a, g.ONE), False))
            elif a.val in ("height", "width"):
                out.append((g.sub(g.const(32767), a), False))
            return out
        if a.op != "fn":
            return []
        if a.val == "bnd:w":
            return [(a, False)]
        if a.val.startswith("bnd:") or a.val in ("perm", "pt"):
            return [(a, False), (g.sub(g.sub(a.args[0], g.ONE), a), False)]
        if a.val == "floor":
            return [(g.sub(a.args[0], a), False), (g.sub(g.add(a, g.ONE), a.args[0]), True)]
        if a.val == "ceil":
            return [(g.sub(a, a.args[0]), False), (g.sub(g.add(a.args[0], g.ONE), a), True)]
        if a.val.startswith("opaque:loop"):
            return B.counting_loop(a)
        name = a.val.split("@")[0]
        if name == "elem:faces":
            return [(a, False), (g.sub(g.sub(S["nb_vertices"], g.ONE), a), False)]
        if name == "elem:faces_uv":
            return [(a, False), (g.sub(g.sub(S["nb_uv"], g.ONE), a), False)]
        return []
    B = Bounds(g, facts)
    return B, size


def implied(g, pc, kind):
    """some flag of this kind is true wherever pc holds"""
    for v in g.bdd_vars(pc):
        if g.atoms[v][0].split("@")[0] == kind and g.implies(pc, g.mk(v, 0, 1)):
            return True
    return False


def one_mode(c, prog, md):
    g = Graph()
    g.canonical_extrema = True
    g.ties = True      # ties matter here: a clamp that lets the limit through is out of bounds
    fname, err, bg, persp, cull = md
    r = Run(prog, g, fname, err, bg, persp, cull)
    B, size = prover(g)
    where = "%s, %s%s%s%s" % (fname, "error" if err else "image", "" if bg else ", background colour", ", perspective" if persp else "",
                              "" if cull else ", no culling")
    done, memo = {}, {}
    c.count("abstract runs of the native entry points", 1)
    c.count("native functions analysed", len(r.I.stats["functions"]))
    for a in r.I.accesses.values():
        o = a.obj
        if o.kind == "rec":
            continue
        c.count("memory accesses", 1)
        if o.kind == "cells":
            sz = g.const(o.size)
        elif o.param:
            if o.name not in size:
                raise AnalysisError("array %s has no known size" % o.name)
            sz = size[o.name]
        else:
            sz = o.size
            if sz is None:
                raise AnalysisError("the size of %s is not known" % o.name)
        if not hasattr(sz, "op"):
            sz = g.const(sz)
        site = done.setdefault((a.site, o.name), [])
        if a.idx.op == "const" and sz.op == "const":
            c.count("constant subscripts", 1)
            if not 0 <= a.idx.val < sz.val and a.pc != 0:
                site.append("index %s of %s elements" % (a.idx.val, sz.val))
            continue
        c.count("symbolic subscripts", 1)
        if o.param and o.name in ("texture", "texture_b"):
            for flag in ("elem:textured", "elem:shaded"):
                if not implied(g, a.pc, flag):
                    site.append("the texture may be empty: not known to be used (%s)" % flag.split(":")[1])
        extra = tuple((g.sub(lp.N, g.ONE), False) for lp in a.ctx if lp.N is not None)
        k = (a.idx.nid, sz.nid, a.pc)
        if k not in memo:
            memo[k] = B.inside(a.idx, sz, a.pc, extra)
        if memo[k]:
            goal = B.why[0] if B.why else None
            site.append("index may be %s: %s" % (memo[k], show(goal if goal is not None else a.idx)[:160]))
    c.count("linear entailments decided", B.lps)
    if B.budgets and not any(done.values()):
        c.notes.append("searches cut off: %d" % B.budgets)
    for (site, name), why in sorted(done.items()):
        short = name.split(":")[0] if name.startswith("heap:") else name
        c.ob("every access is inside its array", "%s %s (%s)" % (site, name, where), not why, "; ".join(sorted(set(why))[:3]),
             "oob:%s:%s" % (site.split(":")[0], short))


def s01(c):
    c.rule("0 <= subscript < size for every array access on every path, for every scene within the sizes and index ranges that S02 enforces")
    c.rule("textures are read and differentiated only for triangles that are textured and shaded (the texture is allowed to be empty otherwise)")
    prog = load_program(c.repo)
    modes = MODES if c.tier == "thorough" else QUICK
    c.parallel([lambda md=md: one_mode(c, prog, md) for md in modes])
    return c.finish("Bounds of every subscript of both native entry points: the access list of the abstract runs (value numbers of subscripts, path "
                    "conditions as BDDs), each bound split on gated joins and discharged by linear (Farkas) entailment from the guards of the path, loop ranges, "
                    "rounding facts and final values of conditional counters; products of strides by mixed-radix decomposition. ",
                    (("memory accesses", 15000), ("symbolic subscripts", 800)))
