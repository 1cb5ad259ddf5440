"""A01: adjacency tables, normals and volume of a mesh against independent definitions from its faces and vertices."""
import itertools
from gvn import show
from pynum import Arr, SymBool
from pyenv import PyEnv, S
from pyinterp import AnalysisError
from checks_python import run, same
from checks_python2 import edge_key
from checks_python5 import tensor

MESH = "deodr.triangulated_mesh"
TORCH = "deodr.pytorch.triangulated_mesh_pytorch"


def _sum(g, xs):
    r = g.ZERO
    for x in xs:
        r = g.add(r, x)
    return r


class Table:
    """the edges of a mesh, defined from its faces: edge ids are those the code gives to the corners (decided to be one per unordered pair)"""

    def __init__(self, I, s, adj, rF):
        self.I, self.s, self.rF = I, s, rF
        g, num = I.g, I.num
        fe = num.arr(s.get(adj, "faces_edges"))
        self.E = num.reader(fe)
        self.shape = fe.ndim == 2 and num.same_dim(fe.dims[0], (s.F,)) and num.same_dim(fe.dims[1], (3,))
        self.eid = num.memo(lambda i: num.node(self.E(i)))

    def id(self, f, k):
        return self.eid(((f,), (k,)))

    def ends(self, f, k):
        return self.rF(((f,), (k,))), self.rF(((f,), ((k + 1) % 3,)))

    def over(self, f):
        """sum over all corners of f(face, corner)"""
        g = self.I.g
        return self.I.num.total([self.I.num.dim(self.s.F)], lambda q: _sum(g, [f(q[0][0], k) for k in range(3)]))

    def count(self, e):
        return self.over(lambda f, k: self.I.num.delta(e, self.id(f, k)))

    def up(self, f, k):
        a, b = self.ends(f, k)
        return self.I.g.boolnode(self.I.num.lt(self.I.num.node(a), self.I.num.node(b)))

    def inc(self, e):
        return self.over(lambda f, k: self.I.g.mul(self.I.num.delta(e, self.id(f, k)), self.up(f, k)))

    def dec(self, e):
        g = self.I.g
        return self.over(lambda f, k: g.mul(self.I.num.delta(e, self.id(f, k)), g.sub(g.ONE, self.up(f, k))))


def quantified(I, b, nE, corners):
    """expands the reductions over all edges in a condition: (condition at the sampled edges, the sampled edges, reason)"""
    g, num = I.g, I.num
    es = []

    def expand(kind, node):
        vals = list(node.args)
        while len(vals) > 2 and vals[-1] is g.ONE:
            vals.pop()
        for n, pts in ((nE, [num.sample(nE, 0), num.sample(nE, 1)]), (None, corners)):
            if n is not None and len(vals) == 3 and vals[-1] is num.node(n) or n is None and len(vals) > 6:
                k = len(pts)
                if len(vals) > k:
                    for p in pts:
                        if p not in es:
                            es.append(p)
                    r = 1 if kind == "red:all" else 0
                    for v in vals[:k]:
                        r = (g.b_and if kind == "red:all" else g.b_or)(r, g.tobdd(v))
                    return r
        raise AnalysisError("a condition reduced over something other than the edges: %s" % show(node)[:160])
    cache = {}

    def rec(x):
        if x < 2:
            return x
        if x not in cache:
            v, lo, hi = g.bdd_nodes[x]
            kind, node = g.atoms[v]
            c = expand(kind, node) if kind in ("red:all", "red:any") else g.mk(v, 0, 1)
            cache[x] = g.ite(c, rec(hi), rec(lo))
        return cache[x]
    return rec(b), es


def by_counts(I, t, have, want, es):
    """two conditions on the numbers of faces in the two directions of a few edges: equal for all such numbers (0..4 each, at least
    one face per edge)?  None when a condition depends on something else"""
    g, num = I.g, I.num
    if len(es) > 2:
        return None
    terms = [(t.inc(e), t.dec(e), t.count(e)) for e in es]
    vs = sorted(g.bdd_vars(have) | g.bdd_vars(want))
    atoms = {}
    for v in vs:
        kind, p = g.atoms[v]
        if kind not in ("lti", "lt", "eq0", "eq"):
            return None
        for i, tr in enumerate(terms):
            for j, x in enumerate(tr):
                for sign in (1, -1):
                    r = g.sub(p, x) if sign > 0 else g.add(p, x)
                    if r.op == "const" and abs(r.val) <= 4:
                        atoms[v] = (kind, i, j, sign, r.val)
        if v not in atoms:
            return None
    N = g.bdd_nodes

    def ev(b, cs):
        while b > 1:
            v, lo, hi = N[b]
            kind, i, j, sign, k = atoms[v]
            x = sign * cs[i][j] + k
            b = hi if (x < 0 if kind in ("lti", "lt") else x == 0) else lo
        return b
    pairs = [(a, b, a + b) for a in range(5) for b in range(5) if a + b]
    return all(ev(have, cs) == ev(want, cs) for cs in itertools.product(pairs, repeat=len(es)))


def a01(c):
    env = PyEnv(c)
    g = env.g
    c.rule("faces_edges numbers unordered pairs of corners injectively; the row of an edge number holds the two corners; the incidence matrices count, for every edge, vertex and "
           "face, the corners at which they meet")
    c.rule("manifold: every edge has at most two faces, at most one in each direction; closed: exactly two; boundary edges: exactly one")
    c.rule("two distinct vertices are adjacent iff some face has both; degrees count the adjacent vertices (faces), the Laplacian is the degree matrix minus the adjacency matrix")
    c.rule("face normals: unit vector along (v1 - v0) x (v2 - v0), opposite for clockwise faces; vertex normals: unit vector along the sum of the normals of the faces at the vertex; "
           "volume: sum of the signed tetrahedra, opposite for clockwise faces")
    jobs = []

    def job(where, scen, key, **kw):
        def f():
            for o in run(c, env, where, scen, **kw):
                for k, r in o.result.items():
                    c.ob("the mesh is described by its tables", "%s: %s" % (where, k), r is None, r or "", key="%s:%s" % (key, k))
        jobs.append(f)

    def differ(I, a, b, what):
        a, b = I.num.node(a), I.num.node(b)
        if a.op == "bool" or b.op == "bool":
            a, b = g.boolnode(g.tobdd(a)), g.boolnode(g.tobdd(b))
        return None if same(I, a, b) else "%s: %s" % (what, show(a)[:160])

    def tables(cls, mod):
        def f(I):
            s = S(I)
            num = I.num
            F = s.param("faces", [s.F, 3], "u4")
            rF = num.reader(F)
            adj = s.new(cls, F, s.flag("clockwise"), s.V, mod=mod)
            t = Table(I, s, adj, rF)
            e, v, w, f = (g.sym("gen:" + x, True) for x in "evwf")
            res = {"edge table shape": None if t.shape else "not one entry per corner"}
            if not t.shape:
                return res
            ids = [t.id(f, k) for k in range(3)]
            for k in range(3):
                res["edge number of corner %d" % k] = edge_key(I, ids[k], *t.ends(f, k), s.V)
            if any(x is not None for x in res.values()):
                return res
            # end points
            nE = num.node(s.get(adj, "nb_edges"))
            ed = num.arr(s.get(adj, "edges"))
            res["size of the edge list"] = None if ed.ndim == 2 and num.same_dim(ed.dims[0], (nE,)) and num.same_dim(ed.dims[1], (2,)) else "shape %r" % (ed.dims,)

            def rows(val, e):
                """(edge number, first, second) such that the row of e is one of them"""
                a, b = val
                if a.op == "fn" and a.val == "opaque:scatter":
                    if not (b.op == "fn" and b.val == "opaque:scatter" and len(a.args) == len(b.args)):
                        return None
                    out = []
                    for i in range(1, len(a.args) - 1, 2):
                        x = a.args[i]
                        if x is not b.args[i] or x.op != "fn" or x.val != "sameindex" or e not in x.args:
                            return None
                        out.append((x.args[1] if x.args[0] is e else x.args[0], a.args[i + 1], b.args[i + 1]))
                    return out
                return [(e, a, b)]
            for k in range(3):
                i = t.id(f, k)
                got = rows([num.node(num.at(ed, ((i,), (j,)))) for j in range(2)], i)
                r = None
                if not got:
                    r = "the two columns of the edge list are not filled together"
                for n, a, b in got or ():
                    r = r or edge_key(I, n, a, b, s.V)
                res["end points of the edge of corner %d" % k] = r
            # incidences
            cnt = lambda name, ix, want: res.__setitem__(name, differ(I, num.at(num.arr(s.get(adj, name)), ix), want, "entry differs"))
            cnt("_vertices_faces", ((v,), (f,)), _sum(g, [num.delta(v, rF(((f,), (k,)))) for k in range(3)]))
            cnt("edges_faces_ones", ((e,), (f,)), _sum(g, [num.delta(e, ids[k]) for k in range(3)]))
            cnt("edges_vertices_ones", ((e,), (v,)), t.over(lambda q, k: g.mul(num.delta(e, t.id(q, k)), g.add(*[num.delta(v, x) for x in t.ends(q, k)]))))
            for name, dims in (("_vertices_faces", (s.V, s.F)), ("edges_faces_ones", (nE, s.F)), ("edges_vertices_ones", (nE, s.V)), ("adjacency_vertices", (s.V, s.V)), ("laplacian", (s.V, s.V))):
                a = num.arr(s.get(adj, name))
                res["shape of " + name] = None if a.ndim == 2 and all(num.same_dim(x, (y,)) for x, y in zip(a.dims, dims)) else "shape %r" % (a.dims,)
            # neighbours
            inc = lambda x, q: _sum(g, [num.delta(x, rF(((q,), (k,)))) for k in range(3)])
            def together(x, y):
                return num.total([num.dim(s.F)], lambda q: g.mul(inc(x, q[0][0]), inc(y, q[0][0])))
            def together2(x, y):
                return num.total([num.dim(nE)], lambda q: g.mul(num.at(num.arr(s.get(adj, "edges_vertices_ones")), ((q[0][0],), (x,))), num.at(num.arr(s.get(adj, "edges_vertices_ones")), ((q[0][0],), (y,)))))
            A = num.reader(num.arr(s.get(adj, "adjacency_vertices")))
            have = A(((v,), (w,)))
            r = "not: some face has both vertices (0 on the diagonal): %s" % show(num.node(have))[:160]
            for tog in (together, together2):
                adjacent = g.boolnode(num.lt(g.ZERO, tog(v, w)))
                if same(I, num.node(have), g.sub(adjacent, num.delta(v, w))) or same(I, num.node(have), g.mul(adjacent, g.sub(g.ONE, num.delta(v, w)))):
                    r = None
                    break
            res["adjacency_vertices"] = r
            deg = num.total([num.dim(s.V)], lambda q: A(((v,), (q[0][0],))))
            res["degree_v_e"] = differ(I, num.at(num.arr(s.get(adj, "degree_v_e")), ((v,),)), deg, "not the number of adjacent vertices")
            res["degree_v_f"] = differ(I, num.at(num.arr(s.get(adj, "degree_v_f")), ((v,),)), num.total([num.dim(s.F)], lambda q: inc(v, q[0][0])), "not the number of faces")
            res["laplacian"] = differ(I, num.at(num.arr(s.get(adj, "laplacian")), ((v,), (w,))), g.sub(g.mul(num.delta(v, w), deg), num.node(A(((v,), (w,))))), "not degree minus adjacency")
            # topology
            corners = [t.id(num.sample(s.F, m), k) for k in range(3) for m in (0, 1)]
            for m in (0, 1):
                q = num.sample(s.F, m)
                for k in range(3):
                    a, b = t.ends(q, k)
                    I.assume(g.b_not(num.eq(num.node(a), num.node(b))))
            two, one = g.const(2), g.ONE
            le = lambda x, n: g.b_not(num.lt(n, x))
            mani = lambda x: g.b_and(le(t.count(x), two), g.b_and(le(t.inc(x), one), le(t.dec(x), one)))
            defs = {"is_manifold": (mani, True), "is_closed": (lambda x: g.b_and(mani(x), num.eq(t.count(x), two)), True), "hasBoundaries": (lambda x: num.eq(t.count(x), one), False)}
            for name, (cond, every) in defs.items():
                x = s.get(adj, name)
                b = x.b if isinstance(x, SymBool) else g.tobdd(num.node(x))
                have, es = quantified(I, b, nE, corners)
                want = 1 if every else 0
                for q in es:
                    want = (g.b_and if every else g.b_or)(want, cond(q))
                if es and by_counts(I, t, have, want, es):
                    res[name] = None
                    continue
                res[name] = ("does not depend on the faces" if not es else None) or differ(I, g.boolnode(have), g.boolnode(want), "differs from its definition")
            be = num.arr(s.do(adj, "boundary_edges"))
            i = g.sym("gen:b", True)
            row = [num.node(num.at(be, ((i,), (j,)))) for j in range(2)]
            r = None
            sel = {x for y in row for x in g.walk([y]) if x.op == "fn" and str(x.val).startswith("nz:") and x.args[1] is num.node(i)}
            if len(sel) != 1:
                r = "not rows of the edge list selected by a condition"
            else:
                n = sel.pop()
                m = n.args[0]
                if m.op != "fn" or m.val != "arr" or len(m.args) != 2 or m.args[0] is not nE:
                    r = "the selecting condition is not one per edge: %s" % show(m)[:120]
                else:
                    q = g.sym("gen:0:0", True)
                    r = None if by_counts(I, t, g.tobdd(m.args[1]), num.eq(t.count(q), one), [q]) else differ(
                        I, m.args[1], g.boolnode(num.eq(t.count(q), one)), "the selected edges are not those with one face")
                    for j in range(2):
                        r = r or differ(I, row[j], num.at(ed, ((n,), (j,))), "not a row of the edge list")
            res["boundary_edges"] = r
            return res
        return f
    job("TriMeshAdjacencies", tables("TriMeshAdjacencies", MESH), "adj", opaque_sparse=False)
    job("TriMeshAdjacenciesPytorch", tables("TriMeshAdjacenciesPytorch", TORCH), "adjt", opaque_sparse=False)

    def geometry(cls, mod, torch):
        def f(I):
            s = S(I)
            num = I.num
            F = s.param("faces", [s.F, 3], "u4")
            V = tensor(s, "vertices", [s.V, 3]) if torch else s.param("vertices", [s.V, 3])
            mesh = s.new(cls, F, V, mod=mod, clockwise=s.flag("clockwise"),
                         **({"colors": tensor(s, "colors", [s.V, 3])} if torch else {"compute_adjacencies": False} if cls == "TriMesh" else {"compute_adjacencies": False, "nb_colors": 3}))
            rF, rV = num.reader(F), num.reader(V)
            cw = s.flag("clockwise").b
            sg = g.sel(cw, g.const(-1), g.ONE)
            f, v = g.sym("gen:f", True), g.sym("gen:v", True)
            P = lambda q, k: [num.node(rV(((rF(((q,), (k,))),), (d,)))) for d in range(3)]

            def cross(a, b):
                return [g.sub(g.mul(a[(d + 1) % 3], b[(d + 2) % 3]), g.mul(a[(d + 2) % 3], b[(d + 1) % 3])) for d in range(3)]

            def unit(n):
                l = g.sqrt(_sum(g, [g.mul(x, x) for x in n]))
                return [g.div(x, l) for x in n]

            def normal(q):
                p = [P(q, k) for k in range(3)]
                u, w = ([g.sub(p[k][d], p[0][d]) for d in range(3)] for k in (1, 2))
                return unit([g.mul(sg, x) for x in cross(u, w)])
            res = {}
            fn = num.arr(s.get(mesh, "face_normals"))
            n = normal(f)
            for d in range(3):
                r = differ(I, num.at(fn, ((f,), (d,))), n[d], "component %d" % d)
                res["face normals"] = res.get("face normals") or r
            vn = num.arr(s.get(mesh, "vertex_normals"))
            n = unit([num.total([num.dim(s.F)], lambda q, d=d: g.mul(_sum(g, [num.delta(v, rF(((q[0][0],), (k,)))) for k in range(3)]), normal(q[0][0])[d])) for d in range(3)])
            for d in range(3):
                r = differ(I, num.at(vn, ((v,), (d,))), n[d], "component %d" % d)
                res["vertex normals"] = res.get("vertex normals") or r
            if not torch:
                vol = s.do(mesh, "compute_volume")

                def det(q):
                    p = [P(q, k) for k in range(3)]
                    return _sum(g, [g.mul(p[0][d], cross(p[1], p[2])[d]) for d in range(3)])
                want = g.mul(g.div(sg, g.const(6)), num.total([num.dim(s.F)], lambda q: det(q[0][0])))
                res["volume"] = differ(I, vol, want, "not the sum of signed tetrahedra")
                res["volume of closed meshes only"] = None if g.implies(I.pc, g.tobdd(num.node(s.get(mesh, "adjacencies", "is_closed")))) else "a volume is returned for a mesh that is not closed"
            return res
        return f
    job("TriMesh geometry", geometry("TriMesh", MESH, False), "geo", opaque_sparse=False)
    job("ColoredTriMesh geometry", geometry("ColoredTriMesh", MESH, False), "geoc", opaque_sparse=False)
    job("ColoredTriMeshPytorch geometry", geometry("ColoredTriMeshPytorch", TORCH, True), "geot", opaque_sparse=False)
    c.parallel(jobs)
    return c.finish(EXPL["A01"], [("paths explored", 4), ("Python functions analysed", 6)])


EXPL = {
    "A01": "Abstract interpretation of the construction of adjacency tables from a symbolic face list, with sparse matrices expanded to sums of index equalities; every entry, "
           "flag, normal and the volume is compared with a definition written from the faces and vertices alone.",
}
