"""C16: probability of families and reliability of graphs."""
from itertools import combinations, product
from fractions import Fraction
import math
from vrun import Unit
import adapt, bigref, gref
from adapt import adapter
from graphillion import GraphSet, DiGraphSet, VertexSetSet, setset
from graphillion.universe import Universe

PROPERTY, LEVEL, VARIANT = "C16", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of families, universes, probability assignments and terminal sets against exact rational sums"
NOTE = ("Every listed family x probability vector (resp. graph x terminal set x vector) is evaluated on the real code and compared with the exact "
        "rational sum over members; dyadic probabilities are compared exactly, others to 1e-12 relative.")
RULE = "one evaluation = one probability()/reliability() call; non-trivial if the exact value is strictly between 0 and 1"
ASSUMPTIONS = ["probabilities are floats in [0, 1]; terminals are vertices of the universe"]
BOUNDS = {"quick": "all 256 families over 3 elements x all vectors over {0,1/4,1/2,1}; all 65536 families over 4 elements x 3 vectors (setset); "
                   "structured families over 8..12 elements; 6 classes, larger and re-registered universes; reliability of every labelled graph "
                   "on <= 5 vertices (K5: 1024 graphs) x all terminal sets x 3 vectors, ordered edge lists over K4, structured graphs"
                   "; 15 kinds of families over 14 elements, reliability on 12 graphs of 12..18 edges",
          "thorough": "16 vectors for the 65536 families, 5 orders of 5-vertex graphs, 6-vertex graphs"}

Q = [Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(1)]


def value(fam, p, m):
    t = Fraction(0)
    for s in fam:
        x = Fraction(1)
        for i in range(m):
            x *= p[i] if s >> i & 1 else 1 - p[i]
        t += x
    return t


def cmp(ctx, what, got, exp, exact):
    if not isinstance(got, float):
        ctx.fail(what + ": not a float", float(exp), got)
    if (got != float(exp)) if exact else not math.isclose(got, float(exp), rel_tol=1e-12, abs_tol=1e-15):
        ctx.fail(what, float(exp), got)


def prob(ctx, ad, fam, x, p, exact=True, keys=None):
    m = ad.n
    ctx.case((ad.name, m, sorted(fam), [str(q) for q in p]))
    exp = value(fam, p, m)
    if 0 < exp < 1:
        ctx.nt()
    got = x.probability({k: float(q) for k, q in zip(keys or ad.elems, p)})
    cmp(ctx, "probability", got, exp, exact)


def u_fam3(ctx, cls, n):
    ad = adapter(cls, n)
    for f in range(1 << (1 << n)):
        fam = frozenset(i for i in range(1 << n) if f >> i & 1)
        x = ad.make(fam)
        for p in product(Q, repeat=n):
            prob(ctx, ad, fam, x, p)
        p = [Fraction(i + 1, 10) for i in range(n)]
        prob(ctx, ad, fam, x, p, False)
        if ad.masks(x) != fam:
            ctx.fail("family changed by probability()")


def u_fam4(ctx, cls, part, parts, nv):
    ad = adapter(cls, 4)
    V = [(Q[1], Q[2], Q[1], Fraction(3, 4)), (Q[0], Q[2], Q[3], Q[1]), (Q[2], Q[0], Q[1], Q[3])]
    V += [p for p in product(Q, repeat=4)][3::16][:nv - 3]
    for f in range(part, 1 << 16, parts):
        fam = frozenset(i for i in range(16) if f >> i & 1)
        x = ad.make(fam)
        for p in V[:nv]:
            prob(ctx, ad, fam, x, p)


def structured(m):
    N = 1 << m
    pc = lambda i: bin(i).count("1")
    F = [[], [0], [N - 1], [0, N - 1], range(N), range(1, N), [i for i in range(N) if pc(i) % 2], [i for i in range(N) if pc(i) == m // 2],
         [i for i in range(N) if pc(i) <= 2], [1 << (m - 1)], [1], [i for i in range(N) if i & 1], [i for i in range(N) if not i & 1],
         [i for i in range(N) if i >> (m - 1)], [i for i in range(N) if not i >> (m - 1)], [i for i in range(N) if not i & (i >> 1)],
         [i for i in range(N) if i % 7 == 2], [1 << i for i in range(m)], [i for i in range(N) if i & 6 == 6]]
    return [frozenset(f) for f in F]


def u_struct(ctx, cls, m, pre):
    if pre:                  # other universes, larger and smaller, registered before and kept in use
        GraphSet.set_universe([(i, j) for i in range(1, 6) for j in range(i + 1, 7)])
        keep = GraphSet({})
        keep.probability({e[:2]: .5 for e in GraphSet.universe()})
        DiGraphSet.set_universe([(1, 2), (2, 3)])
        setset.set_universe(range(pre))
    ad = adapter(cls, m)
    V = [[Q[(i * 3 + k) % 4] for i in range(m)] for k in range(4)] + [[Fraction(1, 2)] * m, [Q[3]] * m, [Q[0]] * m]
    V2 = [[Fraction(i % 9 + 1, 10) for i in range(m)], [Fraction(1, i + 2) for i in range(m)]]
    for fam in structured(m):
        x = ad.make(fam)
        for p in V:
            prob(ctx, ad, fam, x, p)
        for p in V2:
            prob(ctx, ad, fam, x, p, False)
    if cls == "GraphSet":    # reversed and weighted edge keys
        rk = [(e[1], e[0]) for e in ad.elems]
        for fam in structured(m):
            prob(ctx, ad, fam, ad.make(fam), V[1], True, rk)
            prob(ctx, ad, fam, ad.make(fam), V[0], True, [e if i % 2 else (e[1], e[0]) for i, e in enumerate(ad.elems)])


def u_traversal(ctx):
    """probabilities follow the edges, whatever the registration order"""
    for name in ("K5", "grid23", "W4", "two_blocks"):
        E = gref.structured()[name]
        for o in gref.orders(E)[:3]:
            for tr in ("as-is", "greedy", "bfs", "dfs"):
                U = gref.Univ(o, tr)
                g = U.g
                p = [Q[(3 * i + 1) % 4] if i % 3 else Fraction(1, 2) for i in range(g.m)]
                for label, fam, x in (("paths", g.paths(g.verts[0], g.verts[-1], False) if hasattr(g, "paths") else None,
                                       GraphSet.paths(g.verts[0], g.verts[-1])),
                                      ("all", frozenset(range(g.N)), GraphSet({}))):
                    fam = U.masks(x)
                    ctx.case((name, o, tr, label), True)
                    got = x.probability({e: float(q) for e, q in zip(g.edges, p)})
                    cmp(ctx, "probability of " + label, got, value(fam, p, g.m), True)


def u_ev(ctx):
    from graphillion.edgevertex_setset import EdgeVertexSetSet
    for E in gref.labelled_graphs(4):
        if len(E) > 4:
            continue
        for tr in ("as-is", "greedy"):
            GraphSet.set_universe(E, traversal=tr)
            uni = Universe.edge_vertex_universe()
            p = {x: Q[(5 * i + 1) % 4] if i % 2 else Fraction(1, 2) for i, x in enumerate(sorted(uni, key=repr))}
            for fam in ([[]], [[e, e[0], e[1]] for e in E], [[], E + sorted({v for e in E for v in e})]):
                ctx.case((E, tr, fam, str(p)), True)
                x = EdgeVertexSetSet(fam)
                exp = sum(math.prod([p[u] if u in s else 1 - p[u] for u in uni], start=Fraction(1)) for s in map(set, fam))
                cmp(ctx, "EdgeVertexSetSet.probability", x.probability({k: float(v) for k, v in p.items()}), exp, True)


def rel(ctx, U, terms, p, partial=False):
    g = U.g
    ctx.case((U.edges, "reliability", terms, [str(q) for q in p], partial))
    tot = Fraction(0)
    ts = {g.verts.index(t) for t in terms}
    first = next(iter(ts))
    for s in range(g.N):
        c = g.comp_of(s, first) if hasattr(g, "comp_of") else comp(g, s, first)
        if ts <= c:
            x = Fraction(1)
            for i in range(g.m):
                x *= p[i] if s >> i & 1 else 1 - p[i]
            tot += x
    if 0 < tot < 1:
        ctx.nt()
    d = {e: float(q) for e, q in zip(g.edges, p) if not (partial and q == 1)}
    got = GraphSet.reliability(d, list(terms))
    cmp(ctx, "reliability", got, tot, True)


def comp(g, s, v):
    key = (id(g), s)
    r = _comp.get(key)
    if r is None:
        if len(_comp) > 200000:
            _comp.clear()
        par = list(range(g.n))

        def find(a):
            while par[a] != a:
                a = par[a]
            return a
        for i, e in enumerate(g.edges):
            if s >> i & 1:
                a, b = find(g.verts.index(e[0])), find(g.verts.index(e[1]))
                par[a] = b
        r = _comp[key] = [frozenset(y for y in range(g.n) if find(y) == find(x)) for x in range(g.n)]
    return r[v]


_comp = {}


def vectors(m, k):
    V = [[Fraction(1, 2)] * m, [Q[(3 * i + 1) % 4] if i % 2 else Fraction(3, 4) for i in range(m)],
         [Q[1 + i % 3] for i in range(m)], [Fraction(7, 8) if i % 3 else Q[1] for i in range(m)]]
    return V[:k]


def rels(ctx, U, nv, every=1):
    vs = U.g.verts
    sets = [t for r in range(1, len(vs) + 1) for t in combinations(vs, r)]
    for j, t in enumerate(sets[::every] + [sets[-1]]):
        for k, p in enumerate(vectors(U.g.m, nv)):
            rel(ctx, U, t if j % 2 else t[::-1], p, (j + k) % 2)


def u_rel_labelled(ctx, n, part, parts, nv, norders, every):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            for o in ([os[(k // parts) % len(os)]] if norders == 1 else os[:norders]):
                rels(ctx, gref.Univ(o), nv, every)


def u_rel_lists(ctx, n, part, parts):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            rels(ctx, gref.Univ(e), 1, 3)


def u_rel_struct(ctx, name, tr):
    E = gref.structured()[name]
    for o in gref.orders(E)[:2]:
        U = gref.Univ(o, tr)
        if U.g.m <= 12:
            rels(ctx, U, 2, max(1, (1 << U.g.n) // 24))


def u_rel_atlas(ctx, n, part, parts):
    for k, e in enumerate(gref.atlas(n, hi=9)):
        if k % parts == part:
            rels(ctx, gref.Univ(gref.orders(e)[k % 2]), 1, 5)


def u_big(ctx, cls, m):
    """larger universes: dyadic probabilities of few bits are compared exactly"""
    U = bigref.Uni(cls, m)
    V = [[Fraction(1, 2)] * m, [Fraction([1, 3, 0, 2, 4, 1, 3][i % 7], 4) for i in range(m)], [Fraction([4, 1, 1, 3, 2][i % 5], 4) for i in range(m)],
         [Fraction(1 + i % 3, 4) for i in range(m)]]
    I = [Fraction(i % 9 + 1, 10) for i in range(m)]
    for fn, f in bigref.pool(m).items():
        x = U.make(f)
        for j, p in enumerate(V + [I]):
            exp = math.fsum(bigref.weights([float(q) for q in p])[f].tolist())
            ctx.case((cls, m, fn, j), 0 < exp < 1)
            got = x.probability({e: float(q) for e, q in zip(U.elems, p)})
            if not isinstance(got, float) or not math.isclose(got, exp, rel_tol=1e-10 if j == 4 else 1e-13, abs_tol=1e-15):
                ctx.fail("probability", exp, got)
        U.check(ctx, "the family afterwards", x, f)


def u_big_rel(ctx, name, o):
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n, m = B.verts, B.n, B.m
    sets = [(0,), (0, n - 1), (n - 1, 0), (1, n // 2), (0, 1, n - 1), tuple(range(n)), tuple(range(0, n, 2)), (n // 2, n - 2), (n - 1,), tuple(range(n - 1, 0, -3))]
    sets += [(a, b) for a, b in combinations(range(n), 2)][::5]
    P = [[0.5] * m, [[1, 3, 0, 2, 4, 1, 3][i % 7] / 4 for i in range(m)], [(i % 9 + 1) / 10 for i in range(m)]]
    for j, p in enumerate(P):
        W = bigref.weights(p)
        for ts in sets:
            ts = tuple(dict.fromkeys(ts))
            ok = B.all.copy()
            for t in ts[1:]:
                ok &= B.lab[t] == B.lab[ts[0]]
            exp = math.fsum(W[ok].tolist())
            ctx.case((name, o, "reliability", ts, j), 0 < exp < 1)
            got = GraphSet.reliability(dict(zip(E, p)), [V[t] for t in ts])
            if not isinstance(got, float) or not math.isclose(got, exp, rel_tol=1e-10, abs_tol=1e-15):
                ctx.fail("reliability", exp, got)


def units(tier):
    q = tier == "quick"
    u = []
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(1 if q else 3):
            u.append(Unit("big-rel-%s-%d" % (name, o), u_big_rel, (name, o), timeout=3000))
    for cls in ("setset", "GraphSet", "DiGraphSet", "VertexSetSet"):
        for m in (14,) if q else (14, 17, 19):
            u.append(Unit("big-%s-%d" % (cls, m), u_big, (cls, m), seq=True))
    for name in gref.structured():
        for tr in ("as-is", "greedy"):
            u.append(Unit("rel-%s-%s" % (name, tr), u_rel_struct, (name, tr), seq=tr == "greedy"))
    for p in range(32):
        u.append(Unit("rel5-%d" % p, u_rel_labelled, (5, p, 32, 1 if q else 3, 1 if q else 5, 3 if q else 1), seq=p % 2 == 1))
    for p in range(8):
        u.append(Unit("rel4-%d" % p, u_rel_labelled, (4, p, 8, 3, 3, 1), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("rel-lists4-%d" % p, u_rel_lists, (4, p, 16), seq=p % 2 == 1))
    for cls in ("setset", "setset-mixed", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str"):
        for n in (1, 2, 3):
            u.append(Unit("fam-%s-%d" % (cls, n), u_fam3, (cls, n), seq=True))
    for p in range(16):
        u.append(Unit("fam4-%d" % p, u_fam4, ("setset", p, 16, 3 if q else 16), seq=True))
    for cls in ("setset", "GraphSet", "DiGraphSet", "VertexSetSet"):
        for m in (5, 8, 11):
            for pre in (0, 4, 20):
                u.append(Unit("struct-%s-%d-%d" % (cls, m, pre), u_struct, (cls, m, pre), seq=True))
    u.append(Unit("traversal", u_traversal, ()))
    u.append(Unit("edgevertex", u_ev, (), seq=True))
    if not q:
        for p in range(32):
            u.append(Unit("rel-atlas6-%d" % p, u_rel_atlas, (6, p, 32), seq=p % 2 == 1))
    return u
