"""Reference for larger universes (up to about 24 edges): every edge subset is an index into numpy arrays, classified
by textbook definitions; a family under test is turned into a bitmap over all subsets, so that all of them are decided.
Bit layout: element 1 (the first edge of the universe) is the most significant bit of the index."""
from itertools import combinations
from math import gcd
import numpy as np


def bitmap(text, m):
    """the 2**m bitmap of a family given as a dump ('id elem lo hi' lines, children first)."""
    nodes, root = {}, None
    for line in text.split("\n"):
        t = line.split()
        if not t or t[0] == ".":
            break
        if t[0] in "BT":
            root = t[0]
            break
        e = int(t[1])
        if not 1 <= e <= m:
            raise AssertionError("an element %d of %d" % (e, m))
        nodes[t[0]] = (e, t[2], t[3])
        root = t[0]
    if root is None:
        raise AssertionError("an empty dump")
    out = np.zeros(1 << m, bool)
    low, memo = 12, {}

    def small(r, e):
        """bitmap of node r over the elements e..m, few of them"""
        k = (r, e)
        a = memo.get(k)
        if a is None:
            if r == "B":
                a = np.zeros(1 << (m - e + 1), bool)
            elif e > m:
                a = np.ones(1, bool)
            else:
                x = nodes.get(r)
                if x is not None and x[0] < e:
                    raise AssertionError("elements out of order")
                a = np.concatenate((small(x[1], e + 1), small(x[2], e + 1)) if x is not None and x[0] == e
                                   else (small(r, e + 1), np.zeros(1 << (m - e), bool)))
            memo[k] = a
        return a

    def fill(view, r, e):
        if r == "B":
            return
        if m - e + 1 <= low:
            view[:] = small(r, e)
            return
        h = len(view) // 2
        x = nodes.get(r)
        if x is not None and x[0] < e:
            raise AssertionError("elements out of order")
        if x is not None and x[0] == e:
            fill(view[:h], x[1], e + 1)
            fill(view[h:], x[2], e + 1)
        else:
            fill(view[:h], r, e + 1)
    fill(out, root, 1)
    return out


def relabel(text, to):
    """the dump with its elements renumbered"""
    out = []
    for line in text.split("\n"):
        t = line.split()
        if len(t) == 4:
            if int(t[1]) not in to:
                raise AssertionError("an element %s that no operand has" % t[1])
            t[1] = str(to[int(t[1])])
        out.append(" ".join(t))
    return "\n".join(out)


class Big:
    """all subsets of an ordered list of edges (or arcs) over vertices of any kind."""

    def __init__(self, edges, directed=False):
        self.edges = list(edges)
        self.m = m = len(self.edges)
        self.N = 1 << m
        self.verts = sorted({v for e in self.edges for v in e})
        self.n = n = len(self.verts)
        vi = {v: i for i, v in enumerate(self.verts)}
        self.E = [(vi[u], vi[v]) for u, v in self.edges]
        self.eindex = {}
        for i, (u, v) in enumerate(self.edges):
            self.eindex[u, v] = i
            if not directed:
                self.eindex[v, u] = i
        self.directed = directed
        z = lambda t, x: np.full(1, x, t)
        lab = [z(np.int8, v) for v in range(n)]
        par = [z(bool, False) for v in range(n)]
        acyc, bip, ncomp, size = z(bool, True), z(bool, True), z(np.int8, n), z(np.int8, 0)
        ind = [z(np.int8, 0) for v in range(n)]
        outd = [z(np.int8, 0) for v in range(n)]
        cat = np.concatenate
        for i in range(m - 1, -1, -1):
            u, v = self.E[i]
            same = lab[u] == lab[v]
            a, b = np.minimum(lab[u], lab[v]), np.maximum(lab[u], lab[v])
            acyc = cat((acyc, acyc & ~same))
            bip = cat((bip, bip & ~(same & (par[u] == par[v]))))
            ncomp = cat((ncomp, ncomp - ~same))
            size = cat((size, size + 1))
            flip = par[u] == par[v]
            nl, npar = [], []
            for w in range(n):
                moved = (lab[w] == b) & ~same
                nl.append(cat((lab[w], np.where(moved, a, lab[w]))))
                npar.append(cat((par[w], par[w] ^ (moved & flip))))
            lab, par = nl, npar
            for w in range(n):
                ind[w] = cat((ind[w], ind[w] + (w == v)))
                outd[w] = cat((outd[w], outd[w] + (w == u)))
        self.lab, self.acyc, self.bip, self.ncomp, self.size = lab, acyc, bip, ncomp, size
        self.deg = [a + b for a, b in zip(ind, outd)]
        self.ind, self.outd = (ind, outd) if directed else (None, None)
        iso = np.zeros(self.N, np.int8)
        for d in self.deg:
            iso += d == 0
        self.nec = ncomp - iso
        self.iso = iso
        self.nonempty = size > 0
        self.all = np.ones(self.N, bool)
        self._closed = self._induced = None

    # --- helpers
    def bit(self, i):
        """the subsets that contain edge i"""
        return self.idx() >> (self.m - 1 - i) & 1 == 1

    def idx(self):
        if not hasattr(self, "_idx"):
            self._idx = np.arange(self.N, dtype=np.int32)
        return self._idx

    def code(self, edges):
        """index of one subset"""
        r = 0
        for e in edges:
            r |= 1 << (self.m - 1 - self.eindex[e[0], e[1]])
        return r

    def members(self, bm, k=5):
        return [[self.edges[i] for i in range(self.m) if s >> (self.m - 1 - i) & 1] for s in np.flatnonzero(bm)[:k].tolist()]

    def of(self, subsets):
        bm = np.zeros(self.N, bool)
        for s in subsets:
            bm[s] = True
        return bm

    def alldeg(self, f):
        r = self.all.copy()
        for v in range(self.n):
            r &= f(v, self.deg[v])
        return r

    def maxdeg(self):
        return np.max(np.stack(self.deg), axis=0)

    # --- shapes
    def is_cycle(self):
        return (self.nec == 1) & self.alldeg(lambda v, d: (d == 0) | (d == 2))

    def is_path(self):
        return (self.nec == 1) & self.acyc & self.alldeg(lambda v, d: d <= 2)

    def covers(self):
        return self.iso == 0

    def paths(self, t1, t2, ham):
        r = self.is_path()
        for t in (t1, t2):
            if t is not None:
                r &= self.deg[t] == 1
        return r & self.covers() if ham else r

    def cycles(self, ham):
        r = self.is_cycle()
        return r & self.covers() if ham else r

    def trees(self, root, span):
        r = self.acyc & (self.nec == 1)
        if root is not None:
            r &= self.deg[root] > 0
            r |= ~self.nonempty
        return r & self.covers() if span and self.n > 1 else r

    def forests(self, roots, span):
        r = self.acyc.copy()
        for a, b in combinations(roots, 2):
            r &= self.lab[a] != self.lab[b]
        if roots:
            for v in range(self.n):
                ok = self.deg[v] == 0
                for t in roots:
                    ok = ok | (self.lab[v] == self.lab[t])
                r &= ok
        if span:
            r &= self.alldeg(lambda v, d: (d > 0) | (v in roots))
        return r

    def connected_with(self, ts):
        r = self.nec == 1
        for t in ts:
            r = r & (self.deg[t] > 0)
        if len(ts) == 1:
            r |= ~self.nonempty
        return r

    # --- degrees
    def regular(self, lo, hi, conn):
        r = np.zeros(self.N, bool)
        for k in range(max(lo, 1), min(hi, self.n) + 1):
            r |= self.alldeg(lambda v, d: (d == 0) | (d == k)) & self.nonempty
        if conn:
            r &= self.nec == 1
        if lo <= 0:
            r |= ~self.nonempty
        return r

    def degree_distribution(self, dist, conn):
        r = self.alldeg(lambda v, d: np.isin(d, list(dist)))
        for k, c in dist.items():
            if c != -1:
                t = np.zeros(self.N, np.int8)
                for d in self.deg:
                    t += d == k
                r &= t == c
        return r & (self.nec == 1) if conn else r

    # --- search
    def groups(self, groups):
        if groups is None:
            return self.all
        cols = [g for g in groups if g]
        r = self.all.copy()
        for g in cols:
            for v in g[1:]:
                r &= self.lab[v] == self.lab[g[0]]
        for a, b in combinations(cols, 2):
            r &= self.lab[a[0]] != self.lab[b[0]]
        if not groups:
            return r
        other = self.nec.copy()
        for g in cols:
            other -= self.deg[g[0]] > 0
        return r & (other == len(groups) - len(cols))

    def linear(self, w):
        t = np.zeros(1)
        for i in range(self.m - 1, -1, -1):
            t = np.concatenate((t, t + w[i]))
        return t

    # --- partitions and induced
    def closed(self):
        if self._closed is None:
            r = self.all.copy()
            for i, (u, v) in enumerate(self.E):
                r &= self.bit(i) | (self.lab[u] != self.lab[v])
            self._closed = r
        return self._closed

    def induced(self):
        if self._induced is None:
            r = self.nec == 1
            for i, (u, v) in enumerate(self.E):
                r &= self.bit(i) | (self.deg[u] == 0) | (self.deg[v] == 0)
            self._induced = r
        return self._induced

    def balanced(self, w, ratio, lower, upper, k):
        r = self.closed().copy()
        ix = np.flatnonzero(r)
        lo = np.full(len(ix), 1 << 60, np.int64)
        hi = np.zeros(len(ix), np.int64)
        lab = [l[ix] for l in self.lab]
        for root in range(self.n):
            t = np.zeros(len(ix), np.int64)
            for v in range(self.n):
                t += w[v] * (lab[v] == root)
            there = lab[root] == root        # the label of a component is its smallest vertex
            lo = np.where(there, np.minimum(lo, t), lo)
            hi = np.where(there, np.maximum(hi, t), hi)
        ok = (lo >= lower) & (hi <= upper)
        if k != -1:
            ok &= self.ncomp[ix] == k
        if ratio >= 1:
            ok &= hi <= ratio * lo
        r[ix] = ok
        return r

    def vweight(self, w):
        t = np.zeros(self.N, np.int64)
        for v in range(self.n):
            t += w[v] * (self.deg[v] > 0)
        return t

    def induced_code(self, vs):
        return self.code([e for e, (u, v) in zip(self.edges, self.E) if u in vs and v in vs])

    def forbidden_free(self, forb):
        r = self.all.copy()
        idx = self.idx()
        for f in forb:
            vs = {x for i in range(self.m) if f >> (self.m - 1 - i) & 1 for x in self.E[i]}
            r &= idx & self.induced_code(vs) != f
        return r

    def chordal(self):
        return self.forbidden_free(np.flatnonzero(self.is_cycle() & (self.size >= 4)).tolist())

    # --- directed
    def dcycles(self, ham):
        r = (self.nec == 1)
        for i, o in zip(self.ind, self.outd):
            r &= (i == o) & (i <= 1)
        return r & self.covers() if ham else r

    def dpaths(self, s, t, ham):
        r = (self.nec == 1) & self.acyc
        for v in range(self.n):
            i, o = self.ind[v], self.outd[v]
            if v == s:
                r &= (i == 0) & (o == 1)
            elif v == t:
                r &= (i == 1) & (o == 0)
            else:
                r &= ((i == 1) & (o == 1)) | (False if ham else (i == 0) & (o == 0))
        return r

    def dforests(self, roots, span):
        r = self.acyc.copy()
        for v in range(self.n):
            i, o = self.ind[v], self.outd[v]
            r &= i <= 1
            if roots:
                root = (i == 0) & (o > 0)
                r &= root if v in roots else ~root
        return r & self.covers() if span else r

    def dtrees(self, root, span):
        r = self.acyc & (self.nec == 1) & (self.ind[root] == 0) & (self.outd[root] > 0)
        for v in range(self.n):
            r &= self.ind[v] <= 1
        r |= ~self.nonempty
        return r & self.covers() if span and self.n > 1 else r

    # --- neighbours of a family
    def removed(self, f):
        r = np.zeros(self.N, bool)
        for i in range(self.m):
            a = f.reshape(-1, 2, 1 << (self.m - 1 - i))
            r.reshape(-1, 2, 1 << (self.m - 1 - i))[:, 0] |= a[:, 1]
        return r

    def added(self, f):
        r = np.zeros(self.N, bool)
        for i in range(self.m):
            a = f.reshape(-1, 2, 1 << (self.m - 1 - i))
            r.reshape(-1, 2, 1 << (self.m - 1 - i))[:, 1] |= a[:, 0]
        return r

    def swapped(self, f):
        """one element leaves and another one enters"""
        r = np.zeros(self.N, bool)
        for i in range(self.m):
            for j in range(i + 1, self.m):
                a = f.reshape(1 << i, 2, 1 << (j - i - 1), 2, 1 << (self.m - 1 - j))
                b = r.reshape(a.shape)
                b[:, 0, :, 1] |= a[:, 1, :, 0]
                b[:, 1, :, 0] |= a[:, 0, :, 1]
        return r


def compare(ctx, B, what, gs, exp):
    got = bitmap(gs.dumps(), B.m)
    if not np.array_equal(got, exp):
        ctx.fail(what, {"missing": B.members(exp & ~got), "count": int(exp.sum())},
                 {"extra": B.members(got & ~exp), "count": int(got.sum())})
    if len(gs) != int(exp.sum()):
        ctx.fail(what + ": len() differs from the number of members", int(exp.sum()), len(gs))


# --- universes
PETERSEN = [(1, 2), (2, 3), (3, 4), (4, 5), (1, 5), (1, 6), (2, 7), (3, 8), (4, 9), (5, 10), (6, 8), (8, 10), (7, 10), (7, 9), (6, 9)]


def shuffled(edges, k):
    """a fixed order in which neighbouring edges are far apart (wide frontier)."""
    e = list(edges)
    n = len(e)
    while gcd(n, k) > 1:
        k += 1
    return [e[(i * k) % n] for i in range(n)]


def graphs():
    import gref
    tree = [(1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (2, 7), (3, 8), (3, 9), (4, 10), (10, 11), (11, 12), (5, 13), (13, 14), (12, 15)]
    return {"K6": gref.all_edges(6), "grid34": gref.grid(3, 4), "petersen": PETERSEN, "K44": gref.kab(4, 4), "ladder6": gref.ladder(6),
            "W7": gref.wheel(7), "K27": gref.kab(2, 7), "tree15": tree, "C14": gref.cycle(14),
            "K4+K4+e": gref.all_edges(4) + [(u + 4, v + 4) for u, v in gref.all_edges(4)] + [(9, 10)],
            "chords": gref.cycle(9) + [(1, 4), (2, 6), (3, 8), (5, 9), (1, 7)],
            "matching+": [(2 * i + 1, 2 * i + 2) for i in range(7)] + [(2, 3), (4, 5), (6, 7), (8, 9), (1, 14), (3, 9)]}


def larger():
    import gref
    return {"grid44-": gref.grid(4, 4)[:22], "K7-": gref.all_edges(7)[:20], "grid35": gref.grid(3, 5), "ladder7": gref.ladder(7), "K45": gref.kab(4, 5)}


def orders(edges, k=3):
    e = list(edges)
    return [e, shuffled(e, 5), e[::-1], shuffled(e[::-1], 3)][:k]


def ds(edges, directed=False, o=0):
    """registers the universe in the given order and returns its reference."""
    from graphillion import GraphSet, DiGraphSet
    (DiGraphSet if directed else GraphSet).set_universe(list(edges), traversal="as-is")
    return Big(edges, directed)


# --- families over m elements as bitmaps, and back
def todump(bm):
    """the dump of the family with this bitmap (its own reduction, children first)."""
    m = len(bm).bit_length() - 1
    if not bm.any():
        return "B\n.\n"
    out, ids, memo = [], {}, {}

    def rec(a, e):
        k = (e, a.tobytes())
        r = memo.get(k)
        if r is None:
            if e > m:
                r = "T" if a[0] else "B"
            else:
                h = len(a) // 2
                hi = rec(a[h:], e + 1) if a[h:].any() else "B"
                lo = rec(a[:h], e + 1) if a[:h].any() else "B"
                if hi == "B":
                    r = lo
                else:
                    n = (e, lo, hi)
                    r = ids.get(n)
                    if r is None:
                        r = ids[n] = str(2 * len(ids) + 2)
                        out.append("%s %d %s %s" % (r, e, lo, hi))
            memo[k] = r
        return r
    r = rec(bm, 1)
    return "T\n.\n" if r == "T" else "\n".join(out) + "\n.\n"


def along(bm, i):
    """view (before, element i, after)"""
    m = len(bm).bit_length() - 1
    return bm.reshape(1 << i, 2, 1 << (m - 1 - i))


def width(bm):
    return len(bm).bit_length() - 1


def zeta(a, up):
    """sums over subsets (up) or over supersets"""
    a = a.copy()
    for i in range(width(a)):
        v = along(a, i)
        if up:
            v[:, 1] += v[:, 0]
        else:
            v[:, 0] += v[:, 1]
    return a


def mobius(a, up):
    a = a.copy()
    for i in range(width(a)):
        v = along(a, i)
        if up:
            v[:, 1] -= v[:, 0]
        else:
            v[:, 0] -= v[:, 1]
    return a


def count(bm, up):
    return zeta(bm.astype(np.int64), up)


def join(f, g):
    return mobius(count(f, True) * count(g, True), True) > 0


def meet(f, g):
    return mobius(count(f, False) * count(g, False), False) > 0


def quotient(f, g):
    idx = np.arange(len(f))
    r = np.ones(len(f), bool)
    for b in np.flatnonzero(g).tolist():
        r &= (idx & b == 0) & f[idx | b]
    return r


def popcount(m):
    t = np.zeros(1, np.int8)
    for _ in range(m):
        t = np.concatenate((t, t + 1))
    return t


def move(bm, i, how):
    r = bm.copy()
    v, w = along(bm, i), along(r, i)
    if how == "flip":
        w[:, 0], w[:, 1] = v[:, 1], v[:, 0]
    elif how == "graft":
        w[:, 1] = v[:, 0] | v[:, 1]
        w[:, 0] = False
    elif how == "prune":
        w[:, 0] = v[:, 0] | v[:, 1]
        w[:, 1] = False
    elif how == "with":
        w[:, 0] = False
    else:
        w[:, 1] = False
    return r


def removed(f):
    r = np.zeros(len(f), bool)
    for i in range(width(f)):
        along(r, i)[:, 0] |= along(f, i)[:, 1]
    return r


def added(f):
    r = np.zeros(len(f), bool)
    for i in range(width(f)):
        along(r, i)[:, 1] |= along(f, i)[:, 0]
    return r


def swapped(f):
    m = width(f)
    r = np.zeros(len(f), bool)
    for i in range(m):
        for j in range(i + 1, m):
            a = f.reshape(1 << i, 2, 1 << (j - i - 1), 2, 1 << (m - 1 - j))
            b = r.reshape(a.shape)
            b[:, 0, :, 1] |= a[:, 1, :, 0]
            b[:, 1, :, 0] |= a[:, 0, :, 1]
    return r


def linear(w):
    t = np.zeros(1, np.int64 if all(isinstance(x, int) for x in w) else float)
    for x in reversed(w):
        t = np.concatenate((t, t + x))
    return t


def weights(p):
    """probability of every subset"""
    t = np.ones(1)
    for x in reversed(p):
        t = np.concatenate((t * (1 - x), t * x))
    return t


def pool(m):
    """structured and scattered families over m elements."""
    idx = np.arange(1 << m, dtype=np.int64)
    h = (idx * 2654435761 + 12345) % (1 << 32)
    h ^= h >> 15
    h = h * 2246822519 % (1 << 32)
    h ^= h >> 13
    pc = popcount(m)
    low = idx & ((1 << (m // 2)) - 1)
    sparse = np.zeros(1 << m, bool)
    sparse[[(k * k * 40503 + 77 * k + 9) % (1 << m) for k in range(48)]] = True
    few = np.zeros(1 << m, bool)
    few[[0, (1 << m) - 1, 5 % (1 << m), 1 << (m - 1)]] = True
    two = np.zeros(1 << m, bool)
    two[[3, 12]] = True
    return {"all": np.ones(1 << m, bool), "half": h % 2 == 0, "quarter": h % 4 == 1, "scattered": h % 61 == 3, "sparse": sparse, "few": few, "two": two,
            "layer": pc == m // 2, "layers": (pc == 2) | (pc == m - 3), "spaced": idx & idx >> 1 == 0, "even": pc % 2 == 0,
            "product": (h[low] % 3 == 0) & (h[idx >> (m // 2)] % 3 == 1), "heavy": linear([(i * 7) % 5 - 1 for i in range(m)]) >= 4,
            "singles": pc == 1, "big+1": (h % 97 == 0) & (pc > m // 2)}


class Uni:
    """one of the set classes with a universe of m elements; families are given and read as bitmaps."""

    def __init__(self, cls, m):
        from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
        self.name, self.m = cls, m
        if cls == "setset":
            self.cls, self.elems = setset, list(range(1, m + 1))
            setset.set_universe(self.elems)
        elif cls == "VertexSetSet":
            self.cls, self.elems = VertexSetSet, ["v%02d" % i for i in range(m)]
            VertexSetSet.set_universe(self.elems)
        else:
            self.cls = {"GraphSet": GraphSet, "DiGraphSet": DiGraphSet}[cls]
            self.elems = [(i // 2 + 1, i // 2 + 2 + i % 2) for i in range(m)]
            self.cls.set_universe(self.elems, traversal="as-is")

    def make(self, bm):
        return self.cls.loads(todump(bm))

    def read(self, gs):
        return bitmap(gs.dumps(), self.m)

    def subset(self, s):
        return [self.elems[i] for i in range(self.m) if s >> (self.m - 1 - i) & 1]

    def check(self, ctx, what, gs, exp):
        got = self.read(gs)
        if not np.array_equal(got, exp):
            sh = lambda a: [self.subset(s) for s in np.flatnonzero(a)[:4].tolist()]
            ctx.fail(what, {"missing": sh(exp & ~got), "count": int(exp.sum())}, {"extra": sh(got & ~exp), "count": int(got.sum())})
        if len(gs) != int(exp.sum()):
            ctx.fail(what + ": len() differs from the number of members", int(exp.sum()), len(gs))


class Wide(Uni):
    """a universe of many elements; families over a few elements far apart."""

    def __init__(self, cls, total, places):
        from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
        self.name, self.m, self.places = cls, len(places), places
        self.cls = {"setset": setset, "GraphSet": GraphSet, "DiGraphSet": DiGraphSet, "VertexSetSet": VertexSetSet}[cls]
        if cls in ("GraphSet", "DiGraphSet"):
            every = [(i // 2 + 1, i // 2 + 2 + i % 2) for i in range(total)]
            self.cls.set_universe(every, traversal="as-is")
        else:
            every = ["w%d" % i if cls == "VertexSetSet" else i + 1 for i in range(total)]
            self.cls.set_universe(every)
        self.elems = [every[p - 1] for p in places]
        self.to = {p: i + 1 for i, p in enumerate(places)}
        self.back = {i + 1: p for i, p in enumerate(places)}

    def make(self, bm):
        return self.cls.loads(relabel(todump(bm), self.back))

    def read(self, gs):
        return bitmap(relabel(gs.dumps(), self.to), self.m)
