"""What a path condition entails: equalities are solved and substituted, integer bounds are compared up to constants."""
from gvn import AnalysisError


class Facts:
    def __init__(self, I, pc=None, extra=()):
        self.I, self.g = I, I.g
        g = self.g
        self.pc = I.pc if pc is None else pc
        self.map = {}
        self.lits = self.literals(self.pc)
        eqs = [n for k, n, pos in self.lits if k == "eq" and pos] + list(extra)
        done = True
        for _ in range(400):
            done = True
            for e in eqs:
                e = self.norm(e)
                if e.op == "const":
                    continue
                v = self.pivot(e)
                if v is None:
                    continue
                x, val = v
                self.map = {k: g.subst(n, {x: val}) for k, n in self.map.items()}
                self.map[x] = val
                done = False
                break
            if done:
                break
        self.spc = self.subst_b(self.pc)
        self.slits = self.literals(self.spc)

    def literals(self, b):
        g = self.g
        out = []
        if b in (0, 1):
            return out
        for v in g.bdd_vars(b):
            a = g.mk(v, 0, 1)
            kind, node = g.atoms[v]
            if g.implies(b, a):
                out.append((kind, node, True))
            elif g.b_and(b, a) == 0:
                out.append((kind, node, False))
        return out

    def pivot(self, e):
        """a leaf of e with e = c*leaf + rest, leaf not in rest -> (leaf, -rest/c)"""
        g = self.g
        best = None
        for n in g.walk([e]):
            if (n.op == "sym" or n.op == "fn") and n.isint:
                e0, e1 = g.subst(e, {n: g.ZERO}), g.subst(e, {n: g.ONE})
                c = g.sub(e1, e0)
                if c.op != "const" or c.val == 0:
                    continue
                if n in set(g.walk([e0])):
                    continue
                val = g.neg(g.div(e0, c))
                if n in set(g.walk([val])) or any(k in set(g.walk([val])) for k in self.map):
                    continue
                if not (val.isint or val.op == "const"):
                    continue
                if best is None or n.nid > best[0].nid:
                    best = (n, val)
        return best

    def norm(self, n):
        g = self.g
        for _ in range(20):
            m = g.subst(n, self.map) if self.map else n
            m = g.map_atoms(m, lambda b, k, x: b) if False else m
            # integer conversions of integers, sizes of arrays of known rank
            rep = {}
            for x in g.walk([m]):
                if x.op == "fn" and x.val == "toint" and x.args[0].isint:
                    rep[x] = x.args[0]
                elif x.op == "fn" and x.val == "toint":
                    y = self.map.get(x.args[0])
                    if y is not None:
                        rep[x] = y
                elif x.op == "fn" and x.val == "size":
                    nd = g.subst(g.fn("ndim", x.args, isint=True), self.map)
                    if nd.op == "const":
                        r = g.ONE
                        for k in range(int(nd.val)):
                            r = g.mul(r, g.fn("shape", (x.args[0], g.const(k)), isint=True))
                        rep[x] = r
            if rep:
                m = g.subst(m, rep)
            if m is n:
                return m
            n = m
        return n

    def subst_b(self, b):
        return self.g.subst_bdd(b, self.map) if self.map else b

    def holds(self, b):
        g = self.g
        if b == 1 or g.implies(self.pc, b):
            return True
        sb = self.subst_b(b)
        return sb == 1 or g.implies(self.spc, sb)

    def eq(self, a, b):
        g = self.g
        if a is b:
            return True
        d = self.norm(g.sub(a, b))
        if d.op == "const":
            return d.val == 0
        return g.equal(d, g.ZERO) or self.holds(g.b_eq0(d))

    def lt(self, a, b):
        """a < b for integers"""
        g = self.g
        q = self.norm(g.sub(a, b))
        if q.op == "const":
            return q.val < 0
        if self.holds(g.b_lt0(q, True)):
            return True
        for k, n, pos in self.slits:
            if k != "lti":
                continue
            p = self.norm(n) if pos else g.sub(g.const(-1), self.norm(n))
            c = g.sub(q, p)
            if c.op == "const" and c.val <= 0:
                return True
        return False

    def atoms(self, *kinds):
        return [(k, n, pos) for k, n, pos in self.lits + self.slits if k in kinds]
