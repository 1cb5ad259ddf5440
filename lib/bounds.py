"""Bounds of integer index expressions: linear (Farkas) entailment with case splits on gated joins.

prove(p, pc, extra): p >= 0 whenever condition pc and all of extra (each >= 0) hold.  Expressions are value-numbering
nodes; monomials of the integer polynomial form are the variables of the linear system, floor(x) satisfies
floor(x) <= x < floor(x) + 1, a loop index of N iterations lies in 0 .. N-1, products of two index quantities are handled
by mixed-radix decomposition (c + n*q with 0 <= c < n)."""
from fractions import Fraction
from gvn import AnalysisError, show


class Budget(Exception):
    pass


def refute(hyps):
    """hyps: list of (polynomial, strict), each polynomial >= 0 (> 0).  Indices of hypotheses whose nonnegative combination
    is a negative constant (or zero with a strict one among them): they contradict each other.  None when there is none."""
    mons = {}
    for h, s in hyps:
        for m in h:
            if m != () and m not in mons:
                mons[m] = len(mons)
    n, m = len(hyps), len(mons) + 1
    eps = Fraction(1, 10 ** 12)
    T = [[Fraction(0)] * n + [Fraction(0)] for _ in range(m)]
    for j, (h, s) in enumerate(hyps):
        for k, v in h.items():
            if k != ():
                T[mons[k]][j] = v
        T[m - 1][j] = -h.get((), Fraction(0)) + (eps if s else 0)
    T[m - 1][n] = Fraction(1)
    # phase 1, artificial variables implicit (columns n+i, never re-entering); minimise their sum
    basis = [n + i for i in range(m)]
    cost = [sum((T[i][j] for i in range(m)), Fraction(0)) for j in range(n + 1)]
    for _ in range(3000):
        if cost[n] == 0:
            break
        red = next((j for j in range(n) if cost[j] > 0), None)
        if red is None:
            return None
        best = None
        for i in range(m):
            if T[i][red] > 0:
                q = T[i][n] / T[i][red]
                if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                    best = (q, i)
        if best is None:
            return None
        i = best[1]
        pv = T[i][red]
        if pv != 1:
            T[i] = [x / pv if x else x for x in T[i]]
        ti = T[i]
        nz = [k for k, x in enumerate(ti) if x]
        for r in T + [cost]:
            if r is not ti and r[red]:
                f = r[red]
                for k in nz:
                    r[k] -= f * ti[k]
        basis[i] = red
    else:
        raise Budget()
    return [basis[i] for i in range(m) if basis[i] < n and T[i][n] != 0]


class Bounds:
    def __init__(self, g, facts, budget=4000):
        """facts(atom node) -> list of (node, strict): expressions known >= 0 (> 0) whenever the atom occurs"""
        self.g, self.facts = g, facts
        self.memo, self._poly, self._lit, self._neg, self._units = {}, {}, {}, {}, {}
        self.trace = self.real = False
        self.depth, self.gates, self.gkey, self.failed = 0, (), (), []
        self.lemmas, self.budgets, self.why = [], 0, None
        self.budget0 = budget
        self.atoms = {}
        self.lps = 0

    def poly(self, n):
        r = self._poly.get(n.nid)
        if r is not None:
            return r
        if n.op == "const":
            r = {(): Fraction(n.val)} if n.val else {}
        elif n.op == "add":
            a, b = self.poly(n.args[0]), self.poly(n.args[1])
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + v
                if r[k] == 0:
                    del r[k]
        elif n.op == "mul":
            a, b = self.poly(n.args[0]), self.poly(n.args[1])
            r = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    k = tuple(sorted(k1 + k2))
                    r[k] = r.get(k, 0) + v1 * v2
                    if r[k] == 0:
                        del r[k]
        else:
            self.atoms[n.nid] = n
            r = {(n.nid,): Fraction(1)}
        self._poly[n.nid] = r
        return r

    def node(self, p):
        g = self.g
        r = g.ZERO
        for m, v in sorted(p.items()):
            t = g.const(v)
            for a in m:
                t = g.mul(t, self.atoms[a])
            r = g.add(r, t)
        return r

    def literal(self, v, pos):
        """the polynomial inequalities of comparison variable v taken as pos"""
        g = self.g
        k = (v, pos)
        r = self._lit.get(k)
        if r is None:
            kind, n = g.atoms[v]
            r = []
            if kind == "lti" or kind == "lt" and n.isint:
                r = [(g.sub(g.const(-1), n), False) if pos else (n, False)]
            elif kind == "lt":
                r = [(g.neg(n), True) if pos else (n, False)]
            elif kind == "eq" and pos:
                r = [(n, False), (g.neg(n), False)]
            r = self._lit[k] = [(self.poly(x), s) for x, s in r]
        return r

    def contradiction(self, cube, fixed):
        """cube: list of (var, truth); fixed: inequalities that always hold.  Literals of the cube that contradict each other"""
        g = self.g
        lits = []
        for v, pos in cube:
            for h, s in self.literal(v, pos):
                lits.append((h, s, (v, pos)))
        for rounds in (2, 5):
            mons = {m for h, s, t in lits[:1] for m in h} if lits else set()
            use, done, left = lits[:1], set(), lits[1:] + [(h, s, None) for h, s in fixed]
            for _ in range(rounds):
                for m in list(mons):
                    for a in m:
                        if a not in done:
                            done.add(a)
                            left += [(self.poly(f), s, None) for f, s in self.facts(self.atoms[a]) if not isinstance(f, list)]
                new = [x for x in left if any(m != () and m in mons for m in x[0]) or not any(m != () for m in x[0])]
                if not new:
                    break
                left = [x for x in left if x not in new]
                use = use + new
                for x in new:
                    mons |= set(x[0])
            self.lps += 1
            r = refute([(h, s) for h, s, t in use])
            if r is not None:
                return [use[j][2] for j in r if use[j][2] is not None]
            if not left:
                break
        return None

    def gated_node(self, n):
        return any(self.atoms[a].op in ("sel", "bool") for m in self.poly(n) for a in m)

    def counting_loop(self, n):
        """facts about the final value of a counter of a conditional loop: it moved by whole steps, and on the last
        iteration the loop condition held"""
        g = self.g
        k = (len(n.args) - 1) // 2
        pos = int(n.val[len("opaque:loop"):])
        step, v0, cond = n.args[pos], n.args[k + pos], n.args[-1]
        p = self.poly(g.sub(step, v0))
        ws = {a for m in p for a in m}
        if len(ws) != 1:
            return []
        w, = ws
        x = self.atoms[w]
        c = p.get((), 0)
        if p.get((w,), 0) != c or set(p) != {(), (w,)} or not (x.op == "fn" and x.val.startswith("bnd:w")):
            return []
        d = g.sub(n, v0)
        if c < 0:
            return [(g.neg(d), False)]
        out = [(d, False)]
        b = g.tobdd(cond)
        last = g.sub(g.mul(d, g.const(1 / c)), g.ONE)
        for e, s in self.units(b):
            e2 = self.poly(g.subst(e, {x: last}))
            t = e2.get((n.nid,))
            if t is not None and t < 0 and sum(n.nid in m for m in e2) == 1 and not s:
                # e2 = t*n + rest >= 0 on the last iteration, if there is one
                top = {m: v / -t for m, v in e2.items() if m != (n.nid,)}
                if all(v.denominator == 1 for v in top.values()):
                    out.append(([v0, self.node(top)], False))
        return out

    def prove(self, n, pc, extra=()):
        self.left = self.budget0
        g = self.g
        plain, self.gates = {}, {}
        for x, s in extra:
            x = g.assume(x, pc)
            (self.gates if self.gated_node(x) else plain)[x.nid] = (x, s)
        self.gates = tuple(x for k, (x, s) in sorted(self.gates.items()))
        self.gkey = tuple(x.nid for x in self.gates)
        for self.real in (False, True):     # bounds of rounded joined values only when the others do not do
            self.left = self.budget0
            try:
                r = self._prove(n, pc, tuple(x for k, x in sorted(plain.items())))
            except Budget:
                self.budgets += 1
                r = False
            if r:
                break
        if self.trace:
            print(" TOP", r, "pc", pc, show(n, 5)[:300], self.left)
        if not r:
            self.failed.append((n, pc, self.why))
        return r

    def _prove(self, n, pc, extra):
        if pc == 0:
            return True
        k = (n.nid, pc, tuple(x.nid for x, s in extra), self.gkey, self.real)
        r = self.memo.get(k)
        if r is None:
            self.left -= 1
            if self.trace:
                print("   " * self.depth, "goal", show(n, 4)[:160], "pc", pc, "G" if self.gates else "")
            if self.left < 0:
                raise Budget()
            self.memo[k] = False
            r = self.memo[k] = self.step(n, pc, extra)
        return r

    def step(self, n, pc, extra):
        g = self.g
        n = g.assume(n, pc)
        p = self.poly(n)
        if not any(m != () for m in p):
            return p.get((), 0) >= 0 or self.empty(pc, extra, None)
        # a loop index: its extreme value
        for a in sorted({a for m in p for a in m}, reverse=True):
            x = self.atoms[a]
            if x.op == "fn" and x.val.startswith("bnd:") and x.val != "bnd:w":
                cs = [(m, v) for m, v in p.items() if a in m]
                if all(m.count(a) == 1 and all(self.positive(self.atoms[b]) for b in m if b != a) for m, v in cs):
                    if all(v > 0 for m, v in cs):
                        q = g.subst(n, {x: g.ZERO})
                    elif all(v < 0 for m, v in cs):
                        q = g.subst(n, {x: g.sub(x.args[0], g.ONE)})
                    else:
                        continue
                    # the loop runs: its count is positive
                    if self._prove(q, pc, extra):
                        return True
        # a gated join: case by case
        sels = [self.atoms[a] for m in p for a in m if self.atoms[a].op in ("sel", "bool")]
        if sels:
            if self.chain(n, p, pc, extra, {s.nid for s in sels}):
                return True
            s = max(sels, key=lambda s: s.nid)
            t, f = g.b_and(pc, s.val), g.b_and(pc, g.b_not(s.val))
            return self._prove(self.pick_case(p, s, 0), t, extra) and self._prove(self.pick_case(p, s, 1), f, extra)
        if self.empty(pc, extra, n):
            return True
        if self.chain(n, p, pc, extra):
            return True
        # the enclosing loops do not run in this case
        for x in self.gates:
            gates, gkey = self.gates, self.gkey
            self.gates, self.gkey = (), ()
            depth, self.depth = self.depth, 0
            why = self.why
            try:
                if self._prove(g.sub(g.const(-1), x), pc, extra):
                    return True
            finally:
                self.gates, self.gkey, self.depth, self.why = gates, gkey, depth, why
        return False

    def chain(self, n, p, pc, extra, within=None):
        """demand-driven: from a known inequality between joined values (a guard of the path, or a fact about a counter),
        the goal follows when its remainder does"""
        g = self.g
        if self.depth >= 40:
            return False
        known = [(self.poly(x), s) for x, s in self.units(pc) if (x.isint or self.real) and self.gated_node(x)]
        for a in sorted({a for m in p for a in m}):
            for f, s in self.facts(self.atoms[a]):
                if isinstance(f, list):
                    # an upper bound by cases: atom <= max(f)
                    if p.get((a,), 0) < 0 and all(m == (a,) or a not in m for m in p):
                        self.depth += 1
                        try:
                            if all(self._prove(g.subst(n, {self.atoms[a]: b}), pc, extra) for b in f):
                                return True
                        finally:
                            self.depth -= 1
                elif (f.isint or self.real) and self.gated_node(f):
                    known.append((self.poly(f), s))
        for q, s in known:
            for m in p:
                if m != () and m in q and q[m] * p[m] > 0 and (within is None or any(a in within for a in m)):
                    lam = p[m] / q[m]
                    r = {k: p.get(k, 0) - lam * q.get(k, 0) for k in set(p) | set(q)}
                    if s and n.isint and lam > 0:        # an integer above -1
                        r[()] = r.get((), 0) + 1
                    r = {k: v for k, v in r.items() if v}
                    if max((a for k in r if k not in p for a in k), default=-1) > max(m):
                        continue       # only towards values computed earlier
                    self.depth += 1
                    try:
                        if self._prove(self.node(r), pc, extra):
                            return True
                    finally:
                        self.depth -= 1
        return False

    def units(self, pc):
        """the comparisons that pc implies"""
        r = self._units.get(pc)
        if r is None:
            g = self.g
            r = []
            for v in sorted(g.bdd_vars(pc)):
                kind, n = g.atoms[v]
                if kind not in ("lt", "lti", "eq"):
                    continue
                x = g.mk(v, 0, 1)
                if g.b_and(pc, g.b_not(x)) == 0:
                    pos = True
                elif g.b_and(pc, x) == 0:
                    pos = False
                else:
                    continue
                if kind == "eq":
                    if pos:
                        r += [(n, False), (g.neg(n), False)]
                elif kind == "lti" or n.isint:
                    r.append((g.sub(g.const(-1), n) if pos else n, False))
                else:
                    r.append((g.neg(n), True) if pos else (n, False))
            self._units[pc] = r
        return r

    def pick_case(self, p, s, i):
        """polynomial p with the gated join s replaced by its i-th value"""
        q = self.poly(s.args[i] if s.op == "sel" else self.g.ONE if i == 0 else self.g.ZERO)
        r = {}
        for m, v in p.items():
            k = m.count(s.nid)
            t = {tuple(a for a in m if a != s.nid): v}
            for _ in range(k):
                t2 = {}
                for m1, v1 in t.items():
                    for m2, v2 in q.items():
                        mm = tuple(sorted(m1 + m2))
                        t2[mm] = t2.get(mm, 0) + v1 * v2
                t = t2
            for mm, vv in t.items():
                r[mm] = r.get(mm, 0) + vv
        return self.node({m: v for m, v in r.items() if v})

    def lt0(self, n):
        """[n < 0] with the gated joins of n decided first"""
        g = self.g
        r = self._neg.get(n.nid)
        if r is None:
            p = self.poly(n)
            sels = [self.atoms[a] for m in p for a in m if self.atoms[a].op in ("sel", "bool")]
            if sels:
                s = max(sels, key=lambda s: s.nid)
                r = g.ite(s.val, self.lt0(self.pick_case(p, s, 0)), self.lt0(self.pick_case(p, s, 1)))
            else:
                r = g.b_lt0(n, n.isint)
            self._neg[n.nid] = r
        return r

    def empty(self, pc, extra, goal):
        """no values of the atoms satisfy pc, extra and goal < 0"""
        g = self.g
        R = pc
        first = None
        if goal is not None:
            nb = self.lt0(goal)
            R = g.b_and(R, nb)
            if R == 0:
                return True
            vs = g.bdd_vars(nb)
            first = next(iter(vs)) if len(vs) == 1 else None
        fixed = []
        for x, s in extra:
            if not any(self.atoms[a].op in ("sel", "bool") for m in self.poly(x) for a in m):
                fixed.append((self.poly(x), s))
        vs = g.bdd_vars(R)
        for core, cb in self.lemmas:
            if core <= vs:
                R = g.b_and(R, cb)
                if R == 0:
                    return True
        for _ in range(400):
            cube = self.pick(R, first)
            core = self.contradiction(cube, fixed)
            if core is None:
                self.why = (goal, cube, extra)
                return False
            cb = 0
            for v, pos in core:
                x = g.mk(v, 0, 1)
                cb = g.b_or(cb, g.b_not(x) if pos else x)
            if not fixed:
                self.lemmas.append((frozenset(v for v, p in core), cb))
            R = g.b_and(R, cb)
            if R == 0:
                return True
        raise Budget()

    def pick(self, R, first):
        """a satisfying partial assignment of R (the goal's comparison first)"""
        g = self.g
        out = []
        while R > 1:
            v, lo, hi = g.bdd_nodes[R]
            if lo != 0:
                out.append((v, False))
                R = lo
            else:
                out.append((v, True))
                R = hi
        out.sort(key=lambda t: (t[0] != first, -t[0]))
        return out

    def positive(self, a):
        return any(f is a for f, s in self.facts(a))

    def inside(self, idx, size, pc, extra=()):
        """0 <= idx < size"""
        g = self.g
        self.failed = []
        if self.radix(idx, size, pc, extra):
            return None
        if not self.prove(idx, pc, extra):
            return "negative"
        return None if self.prove(g.sub(g.sub(size, g.ONE), idx), pc, extra) else "too large"

    def radix(self, idx, size, pc, extra, depth=0):
        """idx = r + d*q with 0 <= r < d and q inside size/d"""
        g = self.g
        s = self.poly(size)
        if len(s) != 1 or depth > 4:
            return False
        (m, c), = s.items()
        divs = [((a,), Fraction(1)) for a in sorted(set(m))] + ([((), c)] if c > 1 else [])
        if len(m) + (c > 1) < 2:
            return False
        p = self.poly(idx)
        for dm, dc in divs:
            q, r = {}, {}
            for k, v in p.items():
                if dm and dm[0] in k:
                    kk = list(k)
                    kk.remove(dm[0])
                    q[tuple(kk)] = v
                elif not dm and v % dc == 0 and k != ():
                    q[k] = v / dc
                elif not dm and k == ():
                    q[k], r[k] = Fraction(v // dc), Fraction(v % dc)
                else:
                    r[k] = v
            if not q:
                continue
            d = self.node({dm: dc})
            rest = g.div(size, d)
            rn, qn = self.node(r), self.node(q)
            if not (self.prove(rn, pc, extra) and self.prove(g.sub(g.sub(d, g.ONE), rn), pc, extra)):
                continue
            if self.prove(qn, pc, extra) and self.prove(g.sub(g.sub(rest, g.ONE), qn), pc, extra):
                return True
            if self.radix(qn, rest, pc, extra, depth + 1):
                return True
        # a gated join on top: case by case
        if idx.op == "sel":
            t, f = g.b_and(pc, idx.val), g.b_and(pc, g.b_not(idx.val))
            return (t == 0 or self.radix(idx.args[0], size, t, extra, depth + 1)) and (f == 0 or self.radix(idx.args[1], size, f, extra, depth + 1))
        return False
