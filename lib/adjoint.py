"""Adjoint test on write logs: the functional  sum(upstream * d forward)  must equal  sum(gradient increments * direction).

Forward side: every element the forward sweep writes, differentiated in a generic direction H (one opaque function per
parameter array) and weighted with the upstream gradient of that element.  Backward side: every increment the backward
sweep makes to a gradient array, weighted with the same direction.  Both are expressions of one value-numbering graph;
they are equal for all inputs iff the gradients are the exact transpose of the forward code's derivative.
"""
from gvn import AnalysisError, show
from native import PARAMS, untoken, zmap, rewrite, has_elem


def total(I, leaf, val):
    """sum of val over the binders of the leaf except its outermost (sweep) loop"""
    for b, N in leaf.binders[:-1]:
        val = I.sum(b, N, val)
    return val


def sweeps(leaves):
    """leaves grouped by outermost loop, in program order"""
    out = []
    for l in leaves:
        if not l.chain:
            out.append((None, [l]))
            continue
        if out and out[-1][0] is l.chain[-1]:
            out[-1][1].append(l)
        else:
            out.append((l.chain[-1], [l]))
    return out


class Forward:
    def __init__(self, run, out):
        self.run, self.g, self.out = run, run.g, out
        g = self.g
        self.z, self.zb = zmap(g)
        self.u, self.ub = untoken(g)
        self.draw, self.blend, self.init = [], [], []
        for lp, ls in sweeps(run.leaves(out)):
            for l in ls:
                if has_elem(g, l.val, ("elem:" + out,)):
                    self.blend.append(l)
                elif lp is not None and lp.N is not None and lp.N.op == "sym" and lp.N.val == "nb_triangles":
                    self.draw.append(l)
                else:
                    self.init.append(l)

    def seed(self, names):
        g = self.g

        def s(n):
            if n.op == "fn" and n.val.startswith("elem:") and n.val[5:] in names:
                return g.fn("H:" + n.val[5:], n.args)
            return None
        return s

    def functional(self, leaves, param, upstream, z):
        """leaf-wise terms of the functional for one parameter array"""
        g, I = self.g, self.run.I
        R, RB = (self.z, self.zb) if z else (self.u, self.ub)
        terms = []
        cache = {}
        for l in leaves:
            v, idx, gd = R(l.val), R(l.idx), RB(l.guard)
            d = g.tangent(v, self.seed((param,)), cache)
            if d is g.ZERO:
                continue
            t = g.sel(gd, g.mul(upstream(idx, l), d), g.ZERO)
            for b, N in l.binders[:-1]:
                t = I.sum(R(b), R(N), t)
            terms.append((l, t))
        return terms


def transmittances(fwd, state):
    """branches of d(blended value)/d(previous value) of every blend, at the pixel and at the generic pixel of a sum"""
    g, out = fwd.g, []
    H = g.sym("_H_old")
    for l in fwd.blend:
        val, idx = fwd.u(l.val), fwd.u(l.idx)
        old = g.fn("elem:" + state, (idx,))
        T = g.subst(g.tangent(val, lambda n: H if n is old else None, {}), {H: g.ONE})
        m = T
        for b, N in l.binders[:-1]:
            b, N = fwd.u(b), fwd.u(N)
            m = g.subst(m, {b: g.fn("pt", (N,), isint=True)})
        st = [T, m]
        while st:
            x = st.pop()
            if x.op == "sel":
                st += list(x.args)
            elif x.op != "const" and x not in out:
                out.append(x)
    return out


class Backward:
    def __init__(self, run, fwd, state):
        """state: name of the array the backward pass restores (image or err_buffer)"""
        self.run, self.g, self.fwd, self.state = run, run.g, fwd, state
        g = self.g
        self.restored = run.leaves(state)
        self.edge_loops = []
        for l in self.restored:
            if l.chain and l.chain[-1] not in self.edge_loops:
                self.edge_loops.append(l.chain[-1])
        self._T = None
        self.R, self.RB = rewrite(g, None, self._restore(), self._hook(False))
        # the same, at pixels where the edge lets nothing through
        self.R0, self.RB0 = rewrite(g, None, self._restore(), self._hook(True))

    def _hook(self, zero):
        """comparisons of a transmittance with zero are decided: it is positive inside the strip of the edge (zero=False),
        zero for a pixel exactly on the edge (zero=True)"""
        g = self.g
        table = {}

        def candidate(n):
            # only such a comparison makes the transmittances themselves be worked out
            return any(x.op == "fn" and (x.val == "pt" or x.val.startswith("bnd:")) for x in g.walk([n])) and \
                not has_elem(g, n, ("elem:z_buffer", "elem:uv", "elem:depths")) and \
                any(x.op == "sym" and x.val == "sigma" for x in g.walk([n]))

        def fill():
            if self._T is None:
                self._T = transmittances(self.fwd, self.state)
            for t in self._T:
                for b, v in ((g.b_eq0(t), zero), (g.b_lt0(t, False), False), (g.b_lt0(g.neg(t), False), not zero)):
                    if b > 1 and g.bdd_nodes[b][1:] in ((0, 1), (1, 0)):
                        table[g.bdd_nodes[b][0]] = v == (g.bdd_nodes[b][1] == 0)

        def fatom(kind, node, go):
            if kind.startswith("elem:") and "@" in kind:
                return g.b_atom(kind.split("@")[0], go(node))
            if kind in ("eq", "lt"):
                a = g.atom_bdd(kind, go(node))
                if not table and a > 1 and candidate(g.atoms[g.bdd_nodes[a][0]][1]):
                    fill()
                if a > 1 and g.bdd_nodes[a][1:] in ((0, 1), (1, 0)) and g.bdd_nodes[a][0] in table:
                    return int(table[g.bdd_nodes[a][0]] == (g.bdd_nodes[a][1] == 0))
                return a
            return None
        return fatom

    def _restore(self):
        """replace what the backward sweep reads from the blended buffer by what the forward sweep had written there"""
        g, f = self.g, self.fwd
        table, nodes = {}, {}
        for l in f.blend:
            val, idx, gd = f.u(l.val), f.u(l.idx), f.ub(l.guard)
            for full in (False, True):
                m = {}
                if full:
                    I2, V2, G2 = idx, val, gd
                    # innermost sums first, as the summary of a reduction does
                    for b, N in l.binders[:-1]:
                        b, N = f.u(b), f.u(N)
                        b, N = g.subst(b, m), g.subst(N, m)
                        p = g.fn("pt", (N,), isint=True)
                        m1 = {b: p}
                        I2, V2, G2 = g.subst(I2, m1), g.subst(V2, m1), g.subst_bdd(G2, m1)
                    table.setdefault(I2.nid, []).append((G2, V2))
                    nodes[I2.nid] = I2
                else:
                    table.setdefault(idx.nid, []).append((gd, val))
                    nodes[idx.nid] = idx
        self.table = table

        def lookup(i):
            if i.nid in table:
                return table[i.nid]
            r = []
            for k in list(nodes):
                if g.equal(nodes[k], i):
                    r += [t for t in table[k] if t not in r]
            table[i.nid] = r
            return r
        nm = "elem:" + self.state

        def fnode(r):
            if not r.val.startswith("elem:"):
                return None
            base = r.val.split("@")[0]
            if base == nm and "@L" in r.val:
                v = g.fn(base, r.args, r.isint)
                for gd, val in lookup(r.args[0]):
                    v = g.sel(gd, val, v)
                return v
            if "@" in r.val:
                return g.fn(base, r.args, r.isint)
            return None
        return fnode

    def split(self, leaves):
        tri, edge = [], []
        for l in leaves:
            if l.chain and l.chain[-1] in self.edge_loops:
                edge.append(l)
            else:
                tri.append(l)
        return tri, edge

    def increments(self, leaves, param):
        """terms (leaf, increment value, index, guard) contributed to param_b"""
        g, I = self.g, self.run.I
        obj = self.run.arr[param + "_b"]
        out = []
        for l in leaves:
            if l.kind == "acc":
                d = l.val
            else:
                prior = I._read(l.e.prev, obj, l.idx, l.field, l.guard, self.run.st)
                d = g.sub(l.val, prior)
            out.append((l, self.R(d), self.R(l.idx), self.RB(l.guard)))
        return out

    def functional(self, leaves, param):
        g, I = self.g, self.run.I
        terms = []
        for l, d, idx, gd in self.increments(leaves, param):
            t = g.sel(gd, g.mul(d, g.fn("H:" + param, (idx,))), g.ZERO)
            for b, N in l.binders[:-1]:
                t = I.sum(self.R(b), self.R(N), t)
            terms.append((l, t))
        return terms


def addall(g, terms):
    r = g.ZERO
    for l, t in terms:
        r = g.add(r, t)
    return r
