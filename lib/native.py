"""Whole-program abstract runs of the native entry points and the facts the checks need from their write logs."""
import os
import cxxast
from gvn import Graph, AnalysisError, show
from cxxinterp import Program, Interp, State, Rec, Ptr, NULL, Frame, params, qt, is_bool, Log, Dead

ARRAYS = dict(faces="unsigned int", faces_uv="unsigned int", depths="double", uv="double", ij="double", shade="double",
              colors="double", edgeflags="bool", textured="bool", shaded="bool", texture="double", background_image="double",
              background_color="double", uv_b="double", ij_b="double", shade_b="double", colors_b="double", texture_b="double")
SIZES = frozenset(["nb_triangles", "nb_vertices", "nb_uv", "height", "width", "nb_colors", "texture_height", "texture_width"])
PARAMS = ("ij", "uv", "shade", "colors", "texture")


def load_program(repo):
    return Program(cxxast.load_tu(repo))


class Leaf:
    """one store / accumulation of a run with every enclosing loop as a binder (innermost first)"""
    __slots__ = ("kind", "idx", "val", "guard", "binders", "chain", "site", "org", "field", "uid", "carried", "e")


class Run:
    def __init__(self, prog, g, fname, err=0, bg=True, persp=0, cull=1, stop=frozenset()):
        self.prog, self.g, self.fname, self.err = prog, g, fname, err
        if fname not in prog.functions:
            raise AnalysisError("native entry point %s not found" % fname)
        I = self.I = Interp(prog, g)
        I.nonneg_syms = SIZES
        I.stop = stop
        st = State()
        rec = Rec()
        self.arr = {}
        sc = prog.records.get("Scene")
        if sc is None:
            raise AnalysisError("struct Scene not found")
        for f in sc["inner"]:
            if f["kind"] != "FieldDecl":
                continue
            nm, t = f["name"], qt(f)
            if "*" in t:
                if (nm == "background_image" and not bg) or (nm == "background_color" and bg):
                    rec[nm] = NULL
                    continue
                o = I.param_array(st, nm, t.replace("*", "").replace("const", "").strip())
                self.arr[nm] = o
                rec[nm] = Ptr(o, g.ZERO)
            elif nm == "perspective_correct" and persp is not None:
                rec[nm] = g.const(persp)
            elif nm == "backface_culling" and cull is not None:
                rec[nm] = g.const(cull)
            elif is_bool(t):
                rec[nm] = g.boolnode(g.b_atom("flag:" + nm, g.ZERO))
            else:
                rec[nm] = g.sym(nm, True)
        d = [x for x in prog.functions[fname] if params(x) and "Scene" in qt(params(x)[0])][0]
        fr = Frame(d)
        for p in params(d):
            nm, t = p["name"], qt(p)
            if "Scene" in t:
                o = I.new_obj(st, nm, "rec", t)
                st.mem[o.id] = rec
            else:
                o = I.new_obj(st, nm, "cells", t, 1)
                if "*" in t:
                    a = I.param_array(st, nm, "double")
                    self.arr[nm] = a
                    st.mem[o.id] = (Ptr(a, g.ZERO),)
                elif nm == "antialiaseError":
                    st.mem[o.id] = (g.const(err),)
                else:
                    st.mem[o.id] = (g.sym(nm),)
            fr.env[p["id"]] = ("loc", o, g.ZERO, None)
        self.dead = False
        try:
            I.run_body(st, fr, d)
        except Dead:
            self.dead = True
        self.st = st

    def leaves(self, name):
        """flattened write log of a named array, in program order"""
        if name not in self.arr or self.arr[name].id not in self.st.mem:
            return []
        return self.flat(self.st.mem[self.arr[name].id].entries(), (), (), 1)

    def flat(self, entries, binders, chain, guard):
        g = self.g
        out = []
        for e in entries:
            if e.kind in ("base", "loopstart"):
                continue
            gd = g.b_and(guard, e.guard)
            if gd == 0:
                continue
            if e.kind == "seq":
                lp = e.loop
                out += self.flat(e.extra, ((lp.binder, lp.N),) + tuple(e.binders) + tuple(binders), (lp,) + e.chain + tuple(chain), gd)
                continue
            l = Leaf()
            l.kind, l.idx, l.val, l.guard, l.site, l.org, l.field, l.uid, l.e = e.kind, e.idx, e.val, gd, e.site, e.org, e.field, e.uid, e
            l.binders = tuple(e.binders) + tuple(binders)
            l.chain = e.chain + tuple(chain)
            out.append(l)
        return self.drop_dead(out)

    def drop_dead(self, ls):
        """remove entries wholly overwritten by a later store of the same element in the same iteration"""
        g = self.g
        keep = []
        for i, a in enumerate(ls):
            dead = False
            for b in ls[i + 1:]:
                if b.kind == "store" and b.idx is a.idx and b.field == a.field and b.chain == a.chain and g.implies(a.guard, b.guard):
                    dead = True
                    break
            if not dead:
                keep.append(a)
        return keep


def rewrite(g, n, fnode=None, fatom=None, cache=None):
    """rebuild n bottom-up; fnode(node) may replace a (rebuilt) fn node, fatom(kind, node) a comparison atom by a bdd"""
    cache = {} if cache is None else cache

    def go(x):
        r = cache.get(x.nid)
        if r is not None:
            return r
        if x.op in ("const", "sym"):
            r = x
        elif x.op == "bool":
            r = g.boolnode(gb(x.val))
        elif x.op == "sel":
            r = g.sel(gb(x.val), go(x.args[0]), go(x.args[1]))
        else:
            na = tuple(go(a) for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else g.rebuild(x, na)
            if r.op == "fn" and fnode is not None:
                r2 = fnode(r)
                if r2 is not None:
                    r = r2
        cache[x.nid] = r
        return r

    def gb(b):
        if b < 2:
            return b
        r = cache.get(("b", b))
        if r is not None:
            return r
        var, lo, hi = g.bdd_nodes[b]
        kind, node = g.atoms[var]
        a = fatom(kind, node, go) if fatom is not None else None
        if a is None:
            a = g.atom_bdd(kind, go(node))
        r = g.ite(a, gb(hi), gb(lo))
        cache[("b", b)] = r
        return r
    return go, gb


def untoken(g):
    """(node, bdd) rewriters dropping version tokens from array element atoms"""
    def fnode(r):
        if r.val.startswith("elem:") and "@" in r.val:
            return g.fn(r.val.split("@")[0], r.args, r.isint)
        return None

    def fatom(kind, node, go):
        if kind.startswith("elem:") and "@" in kind:
            return g.b_atom(kind.split("@")[0], go(node))
        return None
    return rewrite(g, None, fnode, fatom)


def zmap(g):
    """like untoken, but a comparison of a depth with the depth buffer while it is being built becomes
    'is the recorded depth'"""
    def fnode(r):
        if r.val.startswith("elem:") and "@" in r.val:
            return g.fn(r.val.split("@")[0], r.args, r.isint)
        return None

    def fatom(kind, node, go):
        if kind.startswith("elem:") and "@" in kind:
            return g.b_atom(kind.split("@")[0], go(node))
        if kind == "lt":
            zs = [x for x in g.walk([node]) if x.op == "fn" and x.val.startswith("elem:z_buffer@L")]
            if len(zs) == 1:
                z = zs[0]
                e0, e1 = g.subst(node, {z: g.ZERO}), g.subst(node, {z: g.ONE})
                c = g.sub(e1, e0)
                if c.op == "const" and c.val in (1, -1) and g.add(e0, g.mul(c, z)) is node:
                    eq = g.b_eq0(go(node))
                    return eq if c.val == -1 else g.b_not(eq)
        return None
    return rewrite(g, None, fnode, fatom)


def has_elem(g, n, names):
    return any(x.op == "fn" and x.val.split("@")[0] in names for x in g.walk([n]))


def unstop(g):
    return rewrite(g, None, lambda r: r.args[0] if r.val == "stop" else None)
