"""Wide and long universes: hundreds of vertices at once on the frontier, so that every per-vertex and
per-component quantity of the searches crosses the sizes of the machine types behind them (127, 255, 256, ...).

The subgraphs are too many to enumerate; the searches are restricted to a listed family of candidates instead
(every pattern below at every placement of a boundary set) and have to keep exactly those that fit the
definition.  Universes whose families have a closed form are searched whole."""
from itertools import combinations

HUBS = (1, 2, 3, 4)


def places(n):
    p = [0, 1, 2, 3, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 259, n - 2, n - 1]
    return sorted({i for i in p if 0 <= i < n})


def pairs(n):
    P = places(n)
    out = [(0, 1), (n - 2, n - 1), (0, n - 1)]
    for d in (127, 128, 255, 256, 257):
        out += [(i, i + d) for i in P if i + d < n][:4]
    return sorted(set(out))


def x(i):
    return 10 + i


def edges(n):
    return [(h, x(i)) for h in HUBS for i in range(n)]


def arcs(n):
    return [(1, x(i)) for i in range(n)] + [(x(i), 2) for i in range(n)] + [(2, x(i)) for i in range(n)] + \
        [(x(i), 1) for i in range(n)] + [(3, x(i)) for i in range(n)] + [(x(i), 4) for i in range(n)]


def cycle4(h, g, i, j):
    return [(h, x(i)), (g, x(i)), (h, x(j)), (g, x(j))]


def candidates(n):
    """edge lists"""
    PP, P = pairs(n), places(n)
    c = [[]]
    for i in P:
        c += [[(1, x(i))], [(1, x(i)), (4, x(i))], [(h, x(i)) for h in HUBS]]
    for i, j in PP:
        c += [cycle4(1, 2, i, j), cycle4(3, 4, i, j), cycle4(1, 4, i, j)]
        c += [[(1, x(i)), (2, x(j))], [(1, x(i)), (2, x(i)), (3, x(j)), (4, x(j))], [(2, x(i)), (3, x(i)), (3, x(j)), (4, x(j))],
              [(1, x(i)), (1, x(j)), (2, x(j))], [(1, x(i)), (1, x(j)), (3, x(j)), (3, x(i)), (4, x(j))]]
        for k, m in PP:
            if len({i, j, k, m}) == 4:
                c += [cycle4(1, 2, i, j) + cycle4(3, 4, k, m), [(1, x(i)), (2, x(j)), (3, x(k)), (4, x(m))],
                      [(1, x(i)), (1, x(j)), (2, x(j)), (2, x(k)), (3, x(k)), (3, x(m)), (4, x(m)), (4, x(i))],
                      cycle4(1, 2, i, j) + [(3, x(k)), (4, x(m))], [(1, x(i)), (2, x(i)), (2, x(j)), (3, x(j)), (3, x(k)), (4, x(k)), (4, x(m))]]
    for k in sorted({1, 2, 3, 127, 128, 254, 255, 256, 257, 258, n - 1, n}):
        if k <= n:
            s = [(1, x(i)) for i in range(k)]
            c += [s, s + [(2, x(0))], s + [(2, x(k - 1)), (3, x(k - 1)), (4, x(0))]]
            if k >= 2:
                c += [s + [(2, x(0)), (2, x(k - 1))], s + [(2, x(i)) for i in range(k)],
                      [(1, x(i)) for i in range(k // 2)] + [(2, x(i)) for i in range(k // 2, k)]]
            c += [[(HUBS[i % 4], x(i)) for i in range(k)]]
    return [list(t) for t in sorted({tuple(sorted(e)) for e in c})]


class G:
    """one candidate, decided from the definitions"""

    def __init__(self, es, verts):
        self.es, self.verts = es, verts
        d, p = {}, {}

        def f(v):
            while p[v] != v:
                p[v] = p[p[v]]
                v = p[v]
            return v
        self.acyclic = True
        for a, b in es:
            for v in (a, b):
                d[v] = d.get(v, 0) + 1
                p.setdefault(v, v)
            ra, rb = f(a), f(b)
            if ra == rb:
                self.acyclic = False
            p[ra] = rb
        self.deg = d
        self.comp = {v: f(v) for v in d}
        self.nec = len(set(self.comp.values()))
        self.degs = set(d.values())

    def d(self, v):
        return self.deg.get(v, 0)

    def connected(self):
        return self.nec <= 1

    def cycle(self):
        return bool(self.es) and self.nec == 1 and self.degs == {2}

    def path(self):
        return bool(self.es) and self.nec == 1 and self.acyclic and max(self.degs) <= 2

    def ends(self):
        return {v for v, d in self.deg.items() if d == 1}

    def together(self, vs):
        return len({self.comp.get(v, v) for v in vs}) == 1

    def count(self, k):
        return sum(1 for v in self.deg.values() if v == k) if k else self.verts - len(self.deg)

    def dist(self, dd):
        for k in set(self.degs) | {0}:
            if k not in dd and self.count(k):
                return False
        return all(v < 0 or self.count(k) == v for k, v in dd.items())


def run(ctx, n, C, tests):
    """tests: (label, call with the family of candidates, predicate on G)"""
    C.set_universe(edges(n), traversal="as-is")
    if C.universe() != edges(n):
        ctx.fail("universe in another order", n, len(C.universe()))
        return
    verts = len(HUBS) + n
    cand = [G(e, verts) for e in candidates(n)]
    gs = C([g.es for g in cand])
    if len(gs) != len(cand):
        ctx.fail("size of the candidate family", len(cand), len(gs))
        return
    for label, call, pred in tests(n, verts):
        exp = {frozenset(g.es) for g in cand if pred(g)}
        ctx.case(("wide", n, label), 0 < len(exp) < len(cand))
        got = [frozenset(g) for g in call(gs)]
        if len(got) != len(set(got)) or set(got) != exp:
            got = set(got)
            ctx.fail("wide universe: %s" % label, (n, label), "missing %s, extra %s" % (
                sorted(sorted(s) for s in exp - got)[:1], sorted(sorted(s) for s in got - exp)[:1]))


def directed_candidates(n):
    PP, P = pairs(n), places(n)
    c = [[]]
    for i in P:
        c += [[(1, x(i))], [(1, x(i)), (x(i), 2)], [(1, x(i)), (x(i), 1)], [(3, x(i)), (x(i), 4)], [(1, x(i)), (x(i), 2), (x(i), 4)], [(3, x(i)), (x(i), 1)], [(1, x(i)), (3, x(i))]]
    for i, j in PP:
        c += [[(1, x(i)), (x(i), 2), (2, x(j)), (x(j), 1)], [(1, x(j)), (x(j), 2), (2, x(i)), (x(i), 1)], [(1, x(i)), (x(j), 2)], [(1, x(i)), (x(i), 2), (3, x(j)), (x(j), 4)],
              [(1, x(i)), (x(i), 2), (2, x(j)), (x(j), 4)], [(3, x(i)), (x(i), 2), (2, x(j)), (x(j), 1)], [(1, x(i)), (x(i), 1), (2, x(j)), (x(j), 2)],
              [(1, x(i)), (x(i), 2), (2, x(j)), (x(j), 1), (3, x(i))], [(1, x(i)), (1, x(j)), (x(j), 2)], [(1, x(i)), (1, x(j)), (x(i), 2), (x(j), 4)], [(1, x(i)), (2, x(j)), (x(j), 1)]]
        for k, m in PP:
            if len({i, j, k, m}) == 4:
                c += [[(1, x(i)), (x(i), 2), (2, x(j)), (x(j), 1), (3, x(k)), (x(k), 4)], [(3, x(i)), (x(i), 2), (2, x(j)), (x(j), 1), (1, x(k)), (x(k), 4)], [(1, x(i)), (2, x(j)), (3, x(k)), (x(m), 4)]]
    for k in sorted({1, 2, 127, 128, 254, 255, 256, 257, 258, n - 1, n}):
        if k <= n:
            s, t = [(1, x(i)) for i in range(k)], [(x(i), 2) for i in range(k)]
            c += [s, t, s + t, s + [(x(k - 1), 2)], s + [(x(k - 1), 2), (x(0), 4)], s[:-1] + [(2, x(k - 1))] + [(x(0), 2)], t + [(3, x(0))]]
            if k >= 2:
                c += [s[:k // 2] + [(2, x(i)) for i in range(k // 2, k)] + [(x(0), 2)], s[:k // 2] + [(2, x(i)) for i in range(k // 2, k)], s[:k // 2] + [(3, x(i)) for i in range(k // 2, k)]]
    return [list(t) for t in sorted({tuple(sorted(e)) for e in c if len(set(e)) == len(e)})]


class D(G):
    def __init__(self, es, verts):
        G.__init__(self, es, verts)
        self.ind, self.outd = {}, {}
        for a, b in es:
            self.outd[a] = self.outd.get(a, 0) + 1
            self.ind[b] = self.ind.get(b, 0) + 1

    def i(self, v):
        return self.ind.get(v, 0)

    def o(self, v):
        return self.outd.get(v, 0)

    def dcycle(self):
        return bool(self.es) and self.nec == 1 and all(self.i(v) == 1 == self.o(v) for v in self.deg)

    def dpath(self, s, t):
        return self.nec == 1 and self.acyclic and self.o(s) == 1 and self.i(s) == 0 and self.i(t) == 1 and self.o(t) == 0 and \
            all(self.i(v) == 1 == self.o(v) for v in self.deg if v not in (s, t))

    def forest(self, roots):
        """every component hangs from one root, the roots are exactly these and have arcs"""
        return self.acyclic and max(self.ind.values(), default=0) <= 1 and {v for v in self.deg if not self.i(v)} == set(roots)

    def anyforest(self):
        return self.acyclic and max(self.ind.values(), default=0) <= 1


def run_directed(ctx, n, C, tests):
    C.set_universe(arcs(n), traversal="as-is")
    if C.universe() != arcs(n):
        ctx.fail("universe in another order", n, len(C.universe()))
        return
    verts = len(HUBS) + n
    cand = [D(e, verts) for e in directed_candidates(n)]
    gs = C([g.es for g in cand])
    if len(gs) != len(cand):
        ctx.fail("size of the candidate family", len(cand), len(gs))
        return
    for label, call, pred in tests(n, verts):
        exp = {frozenset(g.es) for g in cand if pred(g)}
        ctx.case(("wide", n, label), 0 < len(exp) < len(cand))
        got = [frozenset(g) for g in call(gs)]
        if len(got) != len(set(got)) or set(got) != exp:
            got = set(got)
            ctx.fail("wide universe: %s" % label, (n, label), "missing %s, extra %s" % (
                sorted(sorted(s) for s in exp - got)[:1], sorted(sorted(s) for s in got - exp)[:1]))
