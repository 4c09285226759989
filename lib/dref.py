"""Reference model for directed subgraph families (bit masks over a fixed arc list)."""
from itertools import combinations, permutations, product


class DG:
    def __init__(self, arcs):
        self.arcs = list(arcs)
        self.m = len(arcs)
        self.verts = sorted({v for e in arcs for v in e}, key=lambda v: (str(type(v)), v))
        vi = {v: i for i, v in enumerate(self.verts)}
        self.vi = vi
        self.n = n = len(self.verts)
        self.A = [(vi[u], vi[v]) for u, v in arcs]
        self.N = N = 1 << self.m
        self.ind = [None] * N
        self.outd = [None] * N
        self.lab = [None] * N
        self.acyc = [True] * N        # no undirected cycle (antiparallel pairs count as one)
        self.ind[0] = self.outd[0] = (0,) * n
        self.lab[0] = tuple(range(n))
        for s in range(1, N):
            h = s.bit_length() - 1
            p = s ^ (1 << h)
            u, v = self.A[h]
            i, o = list(self.ind[p]), list(self.outd[p])
            i[v] += 1
            o[u] += 1
            self.ind[s], self.outd[s] = tuple(i), tuple(o)
            lu, lv = self.lab[p][u], self.lab[p][v]
            if lu == lv:
                self.lab[s], self.acyc[s] = self.lab[p], False
            else:
                a, b = min(lu, lv), max(lu, lv)
                self.lab[s] = tuple(a if x == b else x for x in self.lab[p])
                self.acyc[s] = self.acyc[p]
        self.nec = [len({l for l, d, e in zip(self.lab[s], self.ind[s], self.outd[s]) if d or e}) for s in range(N)]

    def where(self, f):
        return frozenset(s for s in range(self.N) if f(s))

    def cycles(self, ham):
        def ok(s):
            return (s and self.nec[s] == 1 and self.ind[s] == self.outd[s] and max(self.ind[s]) == 1
                    and (not ham or min(self.ind[s]) == 1))
        return self.where(ok)

    def st_paths(self, a, b, ham):
        def ok(s):
            i, o = self.ind[s], self.outd[s]
            if self.nec[s] != 1 or not self.acyc[s]:
                return False
            if (i[a], o[a], i[b], o[b]) != (0, 1, 1, 0):
                return False
            for v in range(self.n):
                if v not in (a, b) and (i[v], o[v]) != (1, 1) and (ham or (i[v], o[v]) != (0, 0)):
                    return False
            return True
        return self.where(ok)

    def forests(self, roots, span):
        """every component with an arc is an arborescence; given roots, exactly those vertices are
        the roots of the (non-trivial) trees."""
        roots = frozenset(roots)

        def ok(s):
            if not self.acyc[s] or (s and max(self.ind[s]) > 1):
                return False
            r = frozenset(v for v in range(self.n) if self.ind[s][v] == 0 and self.outd[s][v] > 0)
            if roots and r != roots:
                return False
            return not span or all(x + y for x, y in zip(self.ind[s], self.outd[s]))
        return self.where(ok)

    def trees(self, root, span):
        def ok(s):
            if s == 0:
                return not span or self.n == 1
            i, o = self.ind[s], self.outd[s]
            if not self.acyc[s] or max(i) > 1 or self.nec[s] != 1 or i[root] or not o[root]:
                return False
            return not span or all(x + y for x, y in zip(i, o))
        return self.where(ok)

    def degrees(self, inc, outc):
        return self.where(lambda s: all(self.ind[s][v] in r for v, r in inc.items()) and
                          all(self.outd[s][v] in r for v, r in outc.items()))


def all_arcs(n):
    return [(i, j) for i in range(1, n + 1) for j in range(1, n + 1) if i != j]


def digraphs(n, lo=1, hi=None):
    A = all_arcs(n)
    for mask in range(1, 1 << len(A)):
        g = [A[i] for i in range(len(A)) if mask >> i & 1]
        if len(g) >= lo and (hi is None or len(g) <= hi):
            yield g


def ordered(n, lo, hi):
    A = all_arcs(n)
    for k in range(lo, hi + 1):
        for p in permutations(A, k):
            yield list(p)


def tournaments(n):
    pairs = list(combinations(range(1, n + 1), 2))
    for bits in product((0, 1), repeat=len(pairs)):
        yield [p if b else (p[1], p[0]) for p, b in zip(pairs, bits)]


def both(edges):
    return [a for e in edges for a in (e, (e[1], e[0]))]


class DUniv:
    def __init__(self, arcs, traversal="as-is", source=None):
        from graphillion import DiGraphSet
        self.cls = DiGraphSet
        self.arcs = list(arcs)
        DiGraphSet.set_universe(self.arcs, traversal=traversal, source=source)
        self.g = DG(self.arcs)
        self.bit = {a: 1 << i for i, a in enumerate(self.arcs)}

    def masks(self, gs):
        out = []
        for s in gs:
            m = 0
            for e in s:
                b = self.bit[e]
                assert not m & b, "arc repeated"
                m |= b
            out.append(m)
        r = frozenset(out)
        assert len(r) == len(out), "member delivered twice"
        return r

    def show(self, masks):
        return [[self.arcs[i] for i in range(self.g.m) if s >> i & 1] for s in sorted(masks)]


def compare(ctx, U, what, gs, exp):
    got = U.masks(gs)
    if got != exp:
        ctx.fail(what, {"missing": U.show(exp - got)[:8], "count": len(exp)},
                 {"extra": U.show(got - exp)[:8], "count": len(got)})
    if len(gs) != len(exp):
        ctx.fail(what + ": len() differs from the number of members", len(exp), len(gs))
