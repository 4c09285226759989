"""Reference model for subgraph families: every subgraph of a small universe is
enumerated as a bit mask over the canonical (sorted) edge list and classified by
textbook definitions, with no code shared with the implementation."""
from itertools import combinations, permutations, product


class UG:
    """All edge subsets of an undirected simple graph, classified."""

    def __init__(self, edges):
        self.edges = sorted(tuple(sorted(e, key=str)) if not all(isinstance(x, int) for x in e)
                            else tuple(sorted(e)) for e in edges)
        self.m = len(self.edges)
        self.verts = sorted({v for e in self.edges for v in e}, key=lambda v: (str(type(v)), v))
        self.vi = {v: i for i, v in enumerate(self.verts)}
        self.n = len(self.verts)
        self.E = [(self.vi[u], self.vi[v]) for u, v in self.edges]
        self.N = 1 << self.m
        self.bit = {}
        for i, (u, v) in enumerate(self.edges):
            self.bit[(u, v)] = self.bit[(v, u)] = 1 << i
        n, m = self.n, self.m
        self.deg = deg = [None] * self.N
        self.lab = lab = [None] * self.N      # component label per vertex (canonical: smallest vertex)
        self.acyc = acyc = [True] * self.N
        self.size = size = [0] * self.N
        deg[0] = (0,) * n
        lab[0] = tuple(range(n))
        for s in range(1, self.N):
            h = s.bit_length() - 1
            p = s ^ (1 << h)
            u, v = self.E[h]
            d = list(deg[p])
            d[u] += 1
            d[v] += 1
            deg[s] = tuple(d)
            size[s] = size[p] + 1
            lu, lv = lab[p][u], lab[p][v]
            if lu == lv:
                lab[s] = lab[p]
                acyc[s] = False
            else:
                a, b = min(lu, lv), max(lu, lv)
                lab[s] = tuple(a if x == b else x for x in lab[p])
                acyc[s] = acyc[p]
        # number of components that contain an edge
        self.nec = [len({l for l, d in zip(lab[s], deg[s]) if d}) for s in range(self.N)]
        # number of components counting isolated vertices
        self.ncomp = [len(set(lab[s])) for s in range(self.N)]
        self._bip = None
        self._nbr = None

    def bipartite(self, s):
        if self._bip is None:
            self._bip = {}
        r = self._bip.get(s)
        if r is None:
            col = {}
            r = True
            adj = {}
            for i in range(self.m):
                if s >> i & 1:
                    u, v = self.E[i]
                    adj.setdefault(u, []).append(v)
                    adj.setdefault(v, []).append(u)
            for st in adj:
                if st in col:
                    continue
                col[st] = 0
                todo = [st]
                while todo and r:
                    x = todo.pop()
                    for y in adj[x]:
                        if y not in col:
                            col[y] = 1 - col[x]
                            todo.append(y)
                        elif col[y] == col[x]:
                            r = False
                            break
            self._bip[s] = r
        return r

    def vset(self, s):
        return frozenset(i for i, d in enumerate(self.deg[s]) if d)

    def induced_by(self, vs):
        r = 0
        for i, (u, v) in enumerate(self.E):
            if u in vs and v in vs:
                r |= 1 << i
        return r

    # ---- constraint search
    def groups_ok(self, s, groups):
        """documented meaning of vertex_groups (vertex indices; [] = one further component)."""
        if groups is None:
            return True
        lab, deg = self.lab[s], self.deg[s]
        cols = [g for g in groups if g]
        free = len(groups) - len(cols)
        comps = []
        for g in cols:
            ls = {lab[v] for v in g}
            if len(ls) != 1:
                return False
            comps.append(ls.pop())
        if len(set(comps)) != len(comps):
            return False
        if not groups:
            return True
        others = {l for l, d in zip(lab, deg) if d} - set(comps)
        return len(others) == free

    def graphs(self, groups=None, dc=None, ne=None, no_loop=False, lin=None, space=None):
        out = []
        for s in (range(self.N) if space is None else space):
            if no_loop and not self.acyc[s]:
                continue
            if ne is not None and self.size[s] not in ne:
                continue
            if dc is not None and any(self.deg[s][v] not in r for v, r in dc.items()):
                continue
            if groups is not None and not self.groups_ok(s, groups):
                continue
            if lin is not None:
                bad = False
                for w, lo, hi in lin:
                    t = sum(w[i] for i in range(self.m) if s >> i & 1)
                    if not lo <= t <= hi:
                        bad = True
                        break
                if bad:
                    continue
            out.append(s)
        return frozenset(out)

    def where(self, pred):
        return frozenset(s for s in range(self.N) if pred(s))

    # ---- named structures
    def is_cycle(self, s):
        return s != 0 and self.nec[s] == 1 and all(d in (0, 2) for d in self.deg[s])

    def is_path(self, s):
        return s != 0 and self.nec[s] == 1 and self.acyc[s] and max(self.deg[s]) <= 2

    def covers_all(self, s):
        return all(self.deg[s])

    def paths(self, t1, t2, ham):
        def ok(s):
            if not self.is_path(s) or (ham and not self.covers_all(s)):
                return False
            ends = {i for i, d in enumerate(self.deg[s]) if d == 1}
            return (t1 is None or t1 in ends) and (t2 is None or t2 in ends)
        return self.where(ok)

    def cycles(self, ham):
        return self.where(lambda s: self.is_cycle(s) and (not ham or self.covers_all(s)))

    def tree_rooted(self, s, root):
        """a tree containing root; the single vertex root counts as the empty edge set."""
        if not self.acyc[s]:
            return False
        if root is None:
            return self.nec[s] == 1
        return s == 0 or (self.nec[s] == 1 and self.deg[s][root] > 0)

    def trees(self, root, span):
        def ok(s):
            if not self.tree_rooted(s, root):
                return False
            return not span or self.covers_all(s) or (self.n == 1)
        return self.where(ok)

    def forests(self, roots, span):
        def ok(s):
            if not self.acyc[s]:
                return False
            lab, deg = self.lab[s], self.deg[s]
            rl = [lab[r] for r in roots]
            if len(set(rl)) != len(rl):
                return False
            if roots and any(d and l not in rl for d, l in zip(deg, lab)):
                return False
            return not span or all(d or v in roots for v, d in enumerate(deg))
        return self.where(ok)

    def connected_with(self, terms):
        return self.where(lambda s: len({self.lab[s][t] for t in terms}) == 1 and
                          self.nec[s] == (1 if s else 0) and
                          (s == 0 or all(self.deg[s][t] for t in terms)))

    def cliques(self, k):
        out = set()
        for vs in combinations(range(self.n), k):
            r = self.induced_by(set(vs))
            if bin(r).count("1") == k * (k - 1) // 2:
                out.add(r)
        return frozenset(out)

    def bicliques(self, a, b):
        out = set()
        adj = set(self.E) | {(v, u) for u, v in self.E}
        pos = {}
        for i, (u, v) in enumerate(self.E):
            pos[u, v] = pos[v, u] = i
        for A in combinations(range(self.n), a):
            rest = [v for v in range(self.n) if v not in A]
            for B in combinations(rest, b):
                if all((x, y) in adj for x in A for y in B):
                    r = 0
                    for x in A:
                        for y in B:
                            r |= 1 << pos[x, y]
                    out.add(r)
        return frozenset(out)

    def regular(self, lo, hi, conn):
        def ok(s):
            ds = {d for d in self.deg[s] if d}
            if s == 0:
                return lo <= 0
            return len(ds) == 1 and lo <= min(ds) <= hi and (not conn or self.nec[s] == 1)
        return self.where(ok)

    def degree_distribution(self, dist, conn):
        def ok(s):
            cnt = {}
            for d in self.deg[s]:
                cnt[d] = cnt.get(d, 0) + 1
            for d, c in cnt.items():
                if d not in dist:
                    return False
            for d, c in dist.items():
                if c != -1 and cnt.get(d, 0) != c:
                    return False
            return not conn or self.nec[s] == 1
        return self.where(ok)

    # ---- partitions
    def closed(self, s):
        """s is the union of the induced subgraphs of its components' vertex sets."""
        lab = self.lab[s]
        return all(s >> i & 1 or lab[u] != lab[v] for i, (u, v) in enumerate(self.E))

    def partitions(self, lo, hi):
        return self.where(lambda s: self.closed(s) and lo <= self.ncomp[s] <= hi)

    def part_weights(self, s, w):
        t = {}
        for v, l in enumerate(self.lab[s]):
            t[l] = t.get(l, 0) + w[v]
        return list(t.values())

    def balanced(self, w, ratio, lower, upper, k):
        def ok(s):
            if not self.closed(s):
                return False
            p = self.part_weights(s, w)
            if k != -1 and len(p) != k:
                return False
            if min(p) < lower or max(p) > upper:
                return False
            return ratio < 1.0 or max(p) <= ratio * min(p)
        return self.where(ok)

    # ---- induced families
    def induced_connected(self):
        """induced subgraphs that are connected and have at least one edge."""
        def ok(s):
            return self.nec[s] == 1 and self.induced_by(self.vset(s)) == s
        return self.where(ok)

    def forbidden_free(self, forb):
        """subgraphs s in which no member of forb is an induced subgraph: no vertex set W with
        s[W] having exactly the edge set of a member and W = its vertex set."""
        fv = [(self.vset(f), f) for f in forb]
        ind = {}
        out = []
        for vs, f in fv:
            if vs not in ind:
                ind[vs] = self.induced_by(vs)
        return self.where(lambda s: all(s & ind[vs] != f for vs, f in fv))

    def chordal(self):
        def ok(s):
            # no induced cycle of length >= 4
            return all(s & self.induced_by(self.vset(c)) != c for c in self._cyc4())
        return self.where(ok)

    def _cyc4(self):
        if not hasattr(self, "_c4"):
            self._c4 = [c for c in self.cycles(False) if self.size[c] >= 4]
        return self._c4


# ------------------------------------------------------------- universes
def all_edges(n):
    return [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]


def labelled_graphs(n, lo=1, hi=None):
    """every non-empty labelled graph on vertices 1..n, as sorted edge lists."""
    E = all_edges(n)
    for mask in range(1, 1 << len(E)):
        g = [E[i] for i in range(len(E)) if mask >> i & 1]
        if len(g) >= lo and (hi is None or len(g) <= hi):
            yield g


def ordered_lists(n, hi=None):
    """every ordered list of distinct edges of K_n."""
    E = all_edges(n)
    for k in range(1, len(E) + 1 if hi is None else hi + 1):
        for p in permutations(E, k):
            yield list(p)


def atlas(n, lo=1, hi=99, connected=None):
    """one representative of every graph on n vertices (no isolated ones) up to isomorphism,
    by orbit enumeration over labelled graphs (n <= 6)."""
    E = all_edges(n)
    idx = {}
    for i, (u, v) in enumerate(E):
        idx[u, v] = idx[v, u] = i
    perms = []
    for p in permutations(range(1, n + 1)):
        perms.append([idx[p[u - 1], p[v - 1]] for u, v in E])
    # canonical form by degree-sequence buckets is enough for n <= 6 if we mark whole orbits
    seen = bytearray(1 << len(E))
    for mask in range(1, 1 << len(E)):
        if seen[mask]:
            continue
        bits = [i for i in range(len(E)) if mask >> i & 1]
        for q in perms:
            t = 0
            for b in bits:
                t |= 1 << q[b]
            seen[t] = 1
        g = [E[i] for i in bits]
        if lo <= len(g) <= hi and len({v for e in g for v in e}) == n:
            if connected is None or connected == is_connected(g):
                yield g


def is_connected(edges):
    vs = {v for e in edges for v in e}
    st = [next(iter(vs))]
    seen = set(st)
    adj = {}
    for u, v in edges:
        adj.setdefault(u, []).append(v)
        adj.setdefault(v, []).append(u)
    while st:
        for y in adj[st.pop()]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen == vs


def orders(edges):
    """a few fixed, different edge orders of one graph (widths and final edges differ)."""
    e = list(edges)
    out = [e, e[::-1], e[1::2] + e[::2], sorted(e, key=lambda x: (x[1], -x[0])),
           sorted(e, key=lambda x: (x[0] * 7 + x[1] * 5) % 11)]
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res


def grid(r, c):
    vs = [[i * c + j + 1 for j in range(c)] for i in range(r)]
    e = []
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                e.append((vs[i][j], vs[i][j + 1]))
            if i + 1 < r:
                e.append((vs[i][j], vs[i + 1][j]))
    return sorted(e)


def cycle(n):
    return sorted((i, i + 1) if i < n else (1, n) for i in range(1, n + 1))


def wheel(n):
    return sorted(cycle(n) + [(i, n + 1) for i in range(1, n + 1)])


def kab(a, b):
    return [(i, a + j) for i in range(1, a + 1) for j in range(1, b + 1)]


def ladder(n):
    return grid(2, n)


PETERSENISH = [(1, 2), (2, 3), (3, 4), (4, 5), (1, 5), (1, 6), (2, 7), (3, 8), (6, 7), (7, 8), (5, 6), (4, 8)]
TWO_BLOCKS = [(1, 2), (2, 3), (1, 3), (3, 4), (4, 5), (5, 6), (4, 6)]
DISCONNECTED = [(1, 2), (2, 3), (1, 3), (4, 5), (5, 6), (4, 6), (7, 8)]
CATERPILLAR = [(1, 2), (2, 3), (3, 4), (2, 5), (3, 6), (3, 7), (4, 8)]


def structured():
    return {"K5": all_edges(5), "grid23": grid(2, 3), "grid33": grid(3, 3), "C6": cycle(6), "W4": wheel(4),
            "W5": wheel(5), "K23": kab(2, 3), "K33": kab(3, 3), "ladder4": ladder(4), "petersenish": PETERSENISH,
            "two_blocks": TWO_BLOCKS, "disconnected": DISCONNECTED, "caterpillar": CATERPILLAR}


_cache = {}


def ug(edges):
    k = frozenset(tuple(sorted(e)) for e in edges)
    r = _cache.get(k)
    if r is None:
        if len(_cache) > 400:
            _cache.clear()
        r = _cache[k] = UG(sorted(k))
    return r


class Univ:
    """A registered GraphSet universe bound to its reference model."""

    def __init__(self, edges, traversal="as-is", source=None):
        from graphillion import GraphSet
        self.GraphSet = GraphSet
        self.edges = list(edges)
        GraphSet.set_universe(self.edges, traversal=traversal, source=source)
        self.g = ug(edges)
        self.bit = self.g.bit

    def masks(self, gs):
        out = []
        bit = self.bit
        for s in gs:
            m = 0
            for e in s:
                b = bit[e[0], e[1]]
                if m & b:
                    raise AssertionError("edge repeated in %r" % (s,))
                m |= b
            out.append(m)
        r = frozenset(out)
        if len(r) != len(out):
            raise AssertionError("member delivered twice")
        return r

    def show(self, masks):
        return [[self.g.edges[i] for i in range(self.g.m) if s >> i & 1] for s in sorted(masks)]

    def make(self, masks):
        g = self.g
        fwd = {tuple(sorted(e)): e for e in self.edges}
        return self.GraphSet([[fwd[g.edges[i]] for i in range(g.m) if s >> i & 1] for s in sorted(masks)])


def compare(ctx, U, what, gs, exp):
    got = U.masks(gs)
    if got != exp:
        ctx.fail(what, {"missing": U.show(exp - got)[:8], "count": len(exp)},
                 {"extra": U.show(got - exp)[:8], "count": len(got)})
    if len(gs) != len(exp):
        ctx.fail(what + ": len() differs from the number of members", len(exp), len(gs))
