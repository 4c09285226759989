"""C15: vertex-set families of VertexSetSet and edge/vertex conversions of GraphSet."""
from itertools import combinations, permutations
from vrun import Unit
import bigref, gref
from graphillion import GraphSet, VertexSetSet
from graphillion.universe import Universe

PROPERTY, LEVEL, VARIANT = "C15", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of graphs, vertex orders and families on the real classes against brute-force definitions"
NOTE = ("Every listed graph, vertex order, naming, traversal and family runs on the real code and is compared with a classification of all "
        "vertex subsets (families) or with the vertex sets computed member by member (conversions).")
RULE = ("one evaluation = one call compared member by member; non-trivial if the expected family is neither empty nor the whole power set "
        "(families), or has two members or more (conversions)")
ASSUMPTIONS = ["graphs are simple; vertices are mutually comparable hashables whose reprs differ"]
BOUNDS = {"quick": "all labelled graphs on <= 4 vertices x all vertex orders, all labelled 5-vertex graphs x 3 orders and namings, distances 1..4, "
                   "isolated vertices included; conversions of all 256 (2^m, m<=3) families, of all <=2-member families for m<=5, and of 40 "
                   "structured families, for every ordered edge list with <= 3 edges and orders, traversals, orientations of larger graphs"
                   "; 12 graphs of 12..18 edges in 2 orders: 22 families converted with every vertex (edge/vertex) set decided, all vertex families with up to 2 more vertices",
          "thorough": "all orders of 5-vertex graphs, all 65536 families for m = 4, 6-vertex graphs"}

NAMES = {"int": lambda n: list(range(1, n + 1)), "rev": lambda n: list(range(n, 0, -1)),
         "str": lambda n: ["n%d" % ((i * 3) % 7) for i in range(n)], "tup": lambda n: [(i % 2, i) for i in range(n)],
         "neg": lambda n: [-1 - i for i in range(n)], "quote": lambda n: ["a'b\"%d" % i for i in range(n)],
         "obj": lambda n: [Name(i) for i in range(n)], "fs": lambda n: [frozenset(range(i)) for i in range(n)],
         "hash": lambda n: [Clash(i) for i in range(n)], "float": lambda n: [i + .5 for i in range(n)]}


class Name:
    """a hashable, ordered vertex whose repr is not a Python expression"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return self.n * 7

    def __eq__(self, o):
        return isinstance(o, Name) and o.n == self.n

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return "<name %d>" % self.n


class Clash(Name):
    def __hash__(self):
        return 5

    def __eq__(self, o):
        return isinstance(o, Clash) and o.n == self.n


def dists(n, E):
    INF = 99
    d = [[0 if i == j else INF for j in range(n)] for i in range(n)]
    for a, b in E:
        d[a][b] = d[b][a] = 1
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d


def family(n, E, what, k=1):
    d = dists(n, E)
    out = set()
    for s in range(1 << n):
        vs = [i for i in range(n) if s >> i & 1]
        if what == "independent_sets":
            ok = all(d[a][b] > k for a, b in combinations(vs, 2))
        elif what == "dominating_sets":
            ok = all(any(d[a][b] <= k for b in vs) for a in range(n))
        elif what == "vertex_covers":
            ok = all(s >> a & 1 or s >> b & 1 for a, b in E)
        else:
            ok = all(d[a][b] == 1 for a, b in combinations(vs, 2))
        if ok:
            out.add(s)
    return frozenset(out)


def masks(ctx, fam, idx):
    l = []
    for s in fam:
        m = 0
        for v in s:
            b = 1 << idx[v]
            if m & b:
                ctx.fail("a vertex is delivered twice in one member", None, s)
            m |= b
        l.append(m)
    r = frozenset(l)
    if len(r) != len(l):
        ctx.fail("a member is delivered twice", None, l)
    if len(fam) != len(r):
        ctx.fail("len() differs from the number of members", len(r), len(fam))
    return r


def fams(ctx, n, E, names, order, flip=0):
    """E: pairs of 0..n-1; names: vertex objects; order: registration order."""
    VertexSetSet.set_universe([(names[i],) if isinstance(names[i], tuple) and flip & 4 else names[i] for i in order]) \
        if not any(isinstance(x, tuple) for x in names) else Universe.set_vertex_universe([names[i] for i in order], tuple_vertex=True)
    idx = {names[i]: i for i in range(n)}
    edges = [(names[a], names[b]) if (flip + j) % 2 == 0 else (names[b], names[a]) for j, (a, b) in enumerate(E)]
    for what in ("independent_sets", "dominating_sets", "vertex_covers", "cliques"):
        for k in ((1, 2, 3, 4) if what in ("independent_sets", "dominating_sets") else (1,)):
            ctx.case((edges, [names[i] for i in order], what, k))
            e2 = list(edges)
            r = getattr(VertexSetSet, what)(e2, **({"distance": k} if k > 1 or flip else {}) if what[0] in "id" else {})
            exp = family(n, E, what, k)
            if 0 < len(exp) < 1 << n:
                ctx.nt()
            got = masks(ctx, r, idx)
            if got != exp:
                ctx.fail("VertexSetSet.%s" % what, sorted(exp), sorted(got))
            if e2 != edges:
                ctx.fail("the edge list was changed", edges, e2)
    # repeated edges (both orientations) mean the same graph
    if E:
        for what in ("independent_sets", "cliques"):
            ctx.case((edges, "doubled", what))
            got = masks(ctx, getattr(VertexSetSet, what)(edges + [(v, u) for u, v in edges[:2]]), idx)
            if got != family(n, E, what):
                ctx.fail("%s with an edge in both orientations" % what, sorted(family(n, E, what)), sorted(got))


def u_fams(ctx, n, part, parts, norders, names):
    pairs = list(combinations(range(n), 2))
    perms = list(permutations(range(n)))
    for g in range(1 << len(pairs)):
        if g % parts != part:
            continue
        E = [p for i, p in enumerate(pairs) if g >> i & 1]
        step = max(1, len(perms) // norders)
        for j, nm in enumerate(names):
            for p in perms[(g + j) % step::step]:
                fams(ctx, n, E, NAMES[nm](n), p, (g + j) % 2)


def all_evs(edges, names):
    return edges


def conv(ctx, edges, families, traversal="as-is", source=None, label=None):
    GraphSet.set_universe(list(edges), traversal=traversal, source=source)
    verts = []
    for e in edges:
        for v in e[:2]:
            if v not in verts:
                verts.append(v)
    n, m = len(verts), len(edges)
    # the vertex universe and the edge/vertex universe hold exactly the parts of the graph
    ctx.case((label, edges, traversal, "universes"))
    vu = VertexSetSet.universe()
    if len(vu) != n or set(vu) != set(verts):
        ctx.fail("vertex universe after set_universe", verts, vu)
    evu = Universe.edge_vertex_universe()
    if len(evu) != n + m or set(evu) != set(verts) | set(e[:2] for e in edges):
        ctx.fail("edge/vertex universe after set_universe", verts + list(edges), evu)
    for fam in families:
        gs = GraphSet([[edges[i] for i in range(m) if s >> i & 1] for s in fam])
        ctx.case((label, edges, traversal, source, sorted(fam)), len(fam) > 1)
        exp = set()
        expev = set()
        for s in fam:
            es = [edges[i][:2] for i in range(m) if s >> i & 1]
            vs = frozenset(v for e in es for v in e)
            exp.add(vs)
            expev.add(vs | frozenset(es))
        vss = gs.to_vertexsetset()
        got = [frozenset(s) for s in vss]
        if len(got) != len(exp) or set(got) != exp or len(vss) != len(exp):
            ctx.fail("to_vertexsetset", sorted(map(repr, exp)), sorted(map(repr, got)))
        ev = gs.to_edgevertexsetset()
        got = [frozenset(s) for s in ev]
        if len(got) != len(expev) or set(got) != expev or len(ev) != len(expev):
            ctx.fail("to_edgevertexsetset", sorted(map(repr, expev)), sorted(map(repr, got)))
        if len(gs) != len(fam):
            ctx.fail("the graphset was changed by a conversion", len(fam), len(gs))
        if exp:
            ctx.check(VertexSetSet([list(s) for s in exp]) == vss, "vertexsetset equality with a constructed family")


def famlist(m, level):
    N = 1 << m
    out = []
    if m <= 2 or (m == 3 and level >= 1) or (m == 4 and level >= 3):
        return [frozenset(i for i in range(N) if f >> i & 1) for f in range(1 << N)]
    out.append(frozenset())
    if m <= 5 and level >= 1:
        out += [frozenset([i]) for i in range(N)]
        step = 1 if m <= 4 or level >= 2 else 7
        out += [frozenset(p) for p in list(combinations(range(N), 2))[::step]]
    else:
        out += [frozenset([i]) for i in range(0, N, max(1, N // 16))]
    pc = lambda i: bin(i).count("1")
    out += [frozenset(range(N)), frozenset(range(1, N)), frozenset(i for i in range(N) if pc(i) == 2),
            frozenset(i for i in range(N) if pc(i) % 2), frozenset(i for i in range(N) if pc(i) >= m - 1),
            frozenset(i for i in range(N) if pc(i) <= 1), frozenset(i for i in range(N) if i % 5 == 3),
            frozenset(i for i in range(N) if not i & (i >> 1)), frozenset(i for i in range(N) if i & 1),
            frozenset(i for i in range(N) if not i & 1), frozenset(i for i in range(N) if i >> (m - 1)),
            frozenset(i for i in range(N) if not i >> (m - 1)), frozenset([0, N - 1])]
    return out


def rename(edges, names):
    return [(names[a - 1], names[b - 1]) for a, b in edges]


def reorient(edges, k):
    return [e if k == 0 else (e[1], e[0]) if k == 1 or i % 2 else e for i, e in enumerate(edges)]


def u_conv_lists(ctx, n, maxm, part, parts, level):
    k = -1
    for E in gref.labelled_graphs(n):
        if len(E) > maxm:
            continue
        for o in permutations(E):
            k += 1
            if k % parts == part:
                conv(ctx, reorient(list(o), k % 3), famlist(len(E), level), "as-is")


def u_conv_graphs(ctx, n, part, parts, level):
    names = list(NAMES)
    for k, E in enumerate(gref.labelled_graphs(n)):
        if k % parts != part:
            continue
        nv = max(v for e in E for v in e)
        for t, tr in enumerate(("as-is", "greedy", "bfs", "dfs")):
            os = gref.orders(E)
            o = os[(k + t) % len(os)]
            nm = NAMES[names[(k + t) % len(names)]](nv)
            if names[(k + t) % len(names)] == "fs" and tr != "as-is":
                nm = NAMES["int"](nv)      # frozensets are not totally ordered
            ed = reorient(rename(o, nm), (k + t) % 3)
            if names[(k + t) % len(names)] == "fs" and tr == "as-is":
                ed = reorient(rename(o, NAMES["str"](nv)), t)
            conv(ctx, ed, famlist(len(E), level), tr)
            if tr != "as-is":
                vs = sorted({v for e in ed for v in e})
                conv(ctx, ed, famlist(len(E), 0)[-3:], tr, source=vs[k % len(vs)])


def u_conv_struct(ctx, name, level):
    E = gref.structured()[name]
    m = len(E)
    for j, o in enumerate(gref.orders(E)):
        for tr in ("as-is", "greedy", "bfs", "dfs"):
            fl = famlist(m, 0) if m <= 9 else [f for f in famlist(m, 0) if len(f) <= 400]
            conv(ctx, reorient(o, j % 3), fl, tr)
            # real enumerations, as in the documentation
            for what, fam in (("paths", GraphSet.paths(o[0][0], o[-1][1]) if o[0][0] != o[-1][1] else GraphSet()),
                              ("cycles", GraphSet.cycles()), ("trees", GraphSet.trees(is_spanning=True)), ("cliques", GraphSet.cliques(3))):
                ctx.case((name, j, tr, what), True)
                exp = {frozenset(v for e in s for v in e) for s in fam}
                got = [frozenset(s) for s in fam.to_vertexsetset()]
                if set(got) != exp or len(got) != len(exp):
                    ctx.fail("to_vertexsetset of %s" % what, sorted(map(sorted, exp)), sorted(map(sorted, got)))
                exp = {frozenset(v for e in s for v in e) | frozenset(s) for s in fam}
                got = [frozenset(s) for s in fam.to_edgevertexsetset()]
                if set(got) != exp or len(got) != len(exp):
                    ctx.fail("to_edgevertexsetset of %s" % what, sorted(map(repr, exp)), sorted(map(repr, got)))


def vbits(B, order):
    """bitmap index of the vertex set of every edge subset, vertices in the given order"""
    pos = {v: len(order) - 1 - i for i, v in enumerate(order)}
    r = bigref.np.zeros(B.N, bigref.np.int64)
    for v, d in zip(B.verts, B.deg):
        r |= (d > 0).astype(bigref.np.int64) << pos[v]
    return r


def u_big(ctx, name, o):
    """larger universes: vertex families over all 2^n vertex sets, conversions of families over all 2^m edge sets"""
    np = bigref.np
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    n, m, V = B.n, B.m, B.verts
    order = VertexSetSet.universe()
    if sorted(order) != V:
        ctx.fail("vertex universe after set_universe", V, order)
    code = vbits(B, order)
    uni = Universe.edge_vertex_universe()
    if len(uni) != n + m or set(uni) != set(V) | set(E):
        ctx.fail("edge/vertex universe after set_universe", V + E, uni)
    wide = n + m <= 24
    if wide:
        at = {x: n + m - 1 - i for i, x in enumerate(uni)}
        evcode = np.zeros(B.N, np.int64)
        for v, d in zip(V, B.deg):
            evcode |= (d > 0).astype(np.int64) << at[v]
        for i, e in enumerate(E):
            evcode |= B.bit(i).astype(np.int64) << at[e]
    fams_ = dict(bigref.pool(m))
    fams_.update(trees=B.trees(None, False), cycles=B.cycles(False), paths=B.paths(None, None, False), spanning=B.trees(None, True),
                 matchings=B.alldeg(lambda v, d: d <= 1), induced=B.induced(), forests=B.forests((), False))
    for fn, f in fams_.items():
        x = GraphSet.loads(bigref.todump(f))
        ctx.case((name, o, "to_vertexsetset", fn), bool(f.any()))
        exp = np.zeros(1 << n, bool)
        exp[code[f]] = True
        r = x.to_vertexsetset()
        got = bigref.bitmap(r.dumps(), n)
        if not np.array_equal(got, exp) or len(r) != int(exp.sum()):
            show = lambda a: [[order[i] for i in range(n) if s >> (n - 1 - i) & 1] for s in np.flatnonzero(a)[:4].tolist()]
            ctx.fail("to_vertexsetset of " + fn, {"missing": show(exp & ~got)}, {"extra": show(got & ~exp), "len": len(r)})
        if wide and (n + m <= 20 or int(f.sum()) < 20000):
            ctx.case((name, o, "to_edgevertexsetset", fn), bool(f.any()))
            r = x.to_edgevertexsetset()
            exp = np.zeros(1 << (n + m), bool)
            exp[evcode[f]] = True
            got = bigref.bitmap(r.dumps(), n + m)
            if not np.array_equal(got, exp) or len(r) != int(exp.sum()):
                show = lambda a: [[uni[i] for i in range(n + m) if s >> (n + m - 1 - i) & 1] for s in np.flatnonzero(a)[:4].tolist()]
                ctx.fail("to_edgevertexsetset of " + fn, {"missing": show(exp & ~got)}, {"extra": show(got & ~exp), "len": len(r)})
        bigref.compare(ctx, B, "the family after its conversions", x, f)
    # vertex families; two isolated vertices are added
    for extra in (0, 2):
        vs = V + ["z%d" % i if isinstance(V[0], str) else 100 + i for i in range(extra)]
        vs = bigref.shuffled(vs, 5)
        N = len(vs)
        VertexSetSet.set_universe(vs)
        at = {v: N - 1 - i for i, v in enumerate(vs)}
        idx = np.arange(1 << N)
        has = {v: idx >> at[v] & 1 == 1 for v in vs}
        d = dists(N, [(vs.index(a), vs.index(b)) for a, b in E])
        for k in range(1, 5):
            ind, dom = np.ones(1 << N, bool), np.ones(1 << N, bool)
            for i, a in enumerate(vs):
                near = np.zeros(1 << N, bool)
                for j, b in enumerate(vs):
                    if d[i][j] <= k:
                        near |= has[b]
                        if i < j:
                            ind &= ~(has[a] & has[b])
                dom &= near
            for what, exp in (("independent_sets", ind), ("dominating_sets", dom)):
                ctx.case((name, o, what, k, extra), bool(exp.any()) and not exp.all())
                r = getattr(VertexSetSet, what)(E, distance=k)
                got = bigref.bitmap(r.dumps(), N)
                if not np.array_equal(got, exp) or len(r) != int(exp.sum()):
                    ctx.fail("%s(distance=%d)" % (what, k), int(exp.sum()), (int(got.sum()), len(r)))
        cov, clq = np.ones(1 << N, bool), np.ones(1 << N, bool)
        for a, b in E:
            cov &= has[a] | has[b]
        for i, j in combinations(range(N), 2):
            if d[i][j] != 1:
                clq &= ~(has[vs[i]] & has[vs[j]])
        for what, exp in (("vertex_covers", cov), ("cliques", clq)):
            ctx.case((name, o, what, extra), bool(exp.any()) and not exp.all())
            r = getattr(VertexSetSet, what)(E)
            got = bigref.bitmap(r.dumps(), N)
            if not np.array_equal(got, exp) or len(r) != int(exp.sum()):
                ctx.fail(what, int(exp.sum()), (int(got.sum()), len(r)))


def units(tier):
    q = tier == "quick"
    u = []
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for n in sorted(gref.structured(), key=lambda x: -len(gref.structured()[x])):
        u.append(Unit("conv-struct-" + n, u_conv_struct, (n, 0), seq=True))
    for n in (1, 2, 3):
        u.append(Unit("fams%d" % n, u_fams, (n, 0, 1, 6, list(NAMES))))
    for p in range(8):
        u.append(Unit("fams4-%d" % p, u_fams, (4, p, 8, 24, ["int", "hash"])))
        u.append(Unit("fams4n-%d" % p, u_fams, (4, p, 8, 2, list(NAMES))))
    for p in range(32):
        u.append(Unit("fams5-%d" % p, u_fams, (5, p, 32, 3 if q else 120, ["int", "str", "hash"] if q else ["int", "obj"])))
    for p in range(16):
        u.append(Unit("conv-lists-%d" % p, u_conv_lists, (4, 3, p, 16, 1), seq=p % 2 == 1))
    for p in range(32):
        u.append(Unit("conv-lists4-%d" % p, u_conv_lists, (4, 6, p, 32, 0), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("conv-g4-%d" % p, u_conv_graphs, (4, p, 16, 1 if q else 3), seq=p % 2 == 1))
    for p in range(24):
        u.append(Unit("conv-g5-%d" % p, u_conv_graphs, (5, p, 24, 0 if q else 2), seq=p % 2 == 1))
    return u
