"""C10: clique, matching, factor, degree and bipartite families."""
from itertools import combinations, product
from vrun import Unit
import bigref, gref, large, wide
from graphillion import GraphSet

PROPERTY, LEVEL, VARIANT = "C10", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes, edge orders and parameters against a brute-force reference model"
NOTE = ("Every listed universe, edge order and parameter tuple is run on the real builders (serial and multi-threaded) and "
        "compared with a classification of all edge subsets; other graphs are outside the bounds.")
RULE = ("one evaluation = one enumeration call on one ordered universe, compared member by member with the classification "
        "of all edge subsets; non-trivial if the expected family is non-empty")
ASSUMPTIONS = ["universes are simple graphs without isolated vertices",
               "bicliques only for a == b (the documented restriction)",
               "degree_distribution: a degree that is not a key must not occur"]
BOUNDS = {"quick": "all 1956 ordered edge lists over K4, all 1023 labelled graphs on 5 vertices in one order each, 13 structured graphs; "
                   "all degrees, all functions vertex -> 0..2 on up to 4 vertices, all degree distributions with values in {absent,any,0..n} "
                   "on 4 vertices"
                   "; K6, 3x4 grid, Petersen graph, K4,4, ladders, wheels, K2,7, trees, cycles and others of 12..18 edges in 2 orders with every one of the 2^m edge subsets decided; universes of 4 hubs and 130, 257 and 300 further vertices (frontiers of over 256 vertices) with some hundreds of listed candidates around the sizes 127, 128, 255, 256, 257; cycles and stars of 20, 255, 256, 257 and 300 edges against closed forms; 17,000 separate edges (34,000 vertices) against closed forms",
          "thorough": "additionally all labelled 5-vertex graphs in 5 orders, all 6-vertex graphs up to isomorphism in 2 orders"}
ANY = GraphSet.DegreeDistribution_Any


def go(ctx, U, level):
    g = U.g
    V, n = g.verts, g.n
    maxd = max(g.deg[-1])

    def run(what, th, exp, *a):
        ctx.case((U.edges, what) + a, bool(exp))
        gref.compare(ctx, U, what, th(), exp)

    for k in range(2, n + 2):
        run("cliques", lambda: GraphSet.cliques(k), g.cliques(k), k)
    for a in range(1, n // 2 + 2):
        run("bicliques", lambda: GraphSet.bicliques(a, a), g.bicliques(a, a), a)
    run("matchings", lambda: GraphSet.matchings(), g.where(lambda s: max(g.deg[s]) <= 1))
    run("perfect_matchings", lambda: GraphSet.perfect_matchings(), g.where(lambda s: set(g.deg[s]) == {1}))
    for k in range(0, maxd + 2):
        run("k_matchings", lambda: GraphSet.k_matchings(k), g.where(lambda s: max(g.deg[s]) <= k), k)
        run("k_factors", lambda: GraphSet.k_factors(k), g.where(lambda s: set(g.deg[s]) == {k}), k)
    if level >= 2:
        fs = list(product(range(3), repeat=n)) if n <= 4 else \
            [tuple((i * a + b) % 4 for i in range(n)) for a in range(4) for b in range(4)]
        for f in fs:
            b = {V[i]: x for i, x in enumerate(f)}
            run("b_matchings", lambda: GraphSet.b_matchings(b),
                g.where(lambda s: all(d <= x for d, x in zip(g.deg[s], f))), f)
            run("f_factors", lambda: GraphSet.f_factors(b), g.where(lambda s: g.deg[s] == f), f)
        for drop in range(n):       # an undefined vertex counts as 0
            b = {V[i]: 2 for i in range(n) if i != drop}
            run("b_matchings", lambda: GraphSet.b_matchings(b),
                g.where(lambda s: all(d <= (0 if i == drop else 2) for i, d in enumerate(g.deg[s]))), "drop", drop)
            f = {V[i]: 1 for i in range(n) if i != drop}
            run("f_factors", lambda: GraphSet.f_factors(f),
                g.where(lambda s: all(d == (0 if i == drop else 1) for i, d in enumerate(g.deg[s]))), "drop", drop)
    bip = g.where(g.bipartite)
    for conn in (True, False):
        cb = frozenset(s for s in bip if not conn or g.nec[s] <= 1)
        run("bipartite_graphs", lambda: GraphSet.bipartite_graphs(is_connected=conn), cb, conn)
        degs = [None] + list(range(1, maxd + 2)) + [(a, b) for a in range(1, maxd + 1) for b in range(a, maxd + 2)]
        if level < 2:
            degs = [None, 1, 2, (1, 2), (2, 3), (1, n)]
        for d in degs:
            lo, hi = (1, n) if d is None else d if isinstance(d, tuple) else (d, d)
            exp = g.regular(lo, hi, conn)
            run("regular_graphs", lambda: GraphSet.regular_graphs(degree=d, is_connected=conn), exp, d, conn)
            run("regular_bipartite_graphs", lambda: GraphSet.regular_bipartite_graphs(degree=d, is_connected=conn),
                exp & bip, d, conn)
    run("letter_P", lambda: GraphSet.letter_P_graphs(),
        g.degree_distribution({0: -1, 1: 1, 2: -1, 3: 1}, True))
    dists = [{0: ANY, 1: 2, 2: ANY}, {0: ANY, 1: ANY}, {1: ANY}, {0: ANY}, {0: ANY, 2: ANY}, {2: ANY}, {0: ANY, 1: 3, 3: 1},
             {0: ANY, 2: 2, 3: 2}, {0: ANY, 1: 4}, {0: ANY, 1: 2, 2: 2}, {1: 2, 2: ANY}, {0: ANY, 1: 1, 2: 1, 3: 1},
             {0: 1, 1: ANY, 2: ANY}, {0: n - 2, 1: 2}, {0: ANY, 1: ANY, 2: ANY, 3: ANY}, {0: ANY, 3: ANY}, {0: n}, {0: 0, 2: n}]
    if level >= 2 and n <= 4:
        opts = [None, ANY] + list(range(0, n + 1))
        dists = []
        for vs in product(opts, repeat=min(maxd, 3) + 1):
            d = {i: x for i, x in enumerate(vs) if x is not None}
            if sum(x for x in d.values() if x > 0) <= n:
                dists.append(d)
        dists = dists[::1 if level >= 3 else 7]
    for d in dists:
        for conn in (True, False):
            run("degree_distribution", lambda: GraphSet.degree_distribution_graphs(d, conn),
                g.degree_distribution(d, conn), sorted(d.items()), conn)


def u_lists(ctx, n, part, parts, level):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            go(ctx, gref.Univ(e), level if (k // parts) % 8 == 0 else 1)


def u_labelled(ctx, n, part, parts, norders, level):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            sel = os[:norders] if norders > 1 else [os[(k // parts) % len(os)]]
            for o in sel:
                go(ctx, gref.Univ(o), level)


def u_atlas(ctx, n, part, parts, norders, hi):
    for k, e in enumerate(gref.atlas(n, hi=hi)):
        if k % parts == part:
            for o in gref.orders(e)[:norders]:
                go(ctx, gref.Univ(o), 1)


def u_struct(ctx, name, o):
    e = gref.structured()[name]
    os = gref.orders(e)
    if o < len(os):
        go(ctx, gref.Univ(os[o]), 2 if len(e) <= 9 else 1)


def u_all4(ctx, part, parts):
    for k, e in enumerate(gref.labelled_graphs(4)):
        if k % parts == part:
            go(ctx, gref.Univ(e), 3)


def u_wide(ctx, n):
    """frontiers of hundreds of vertices: listed candidates through graphset="""
    GS = GraphSet
    x, far = wide.x, wide.x(n - 1)

    def tests(n, verts):
        def top(g):
            return max(g.degs, default=0)
        yield "matchings", lambda f: GS.matchings(graphset=f), lambda g: top(g) <= 1
        yield "perfect_matchings", lambda f: GS.perfect_matchings(graphset=f), lambda g: False
        for k in sorted({k for k in (0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, n - 1, n) if k <= n}):
            yield "k_matchings(%d)" % k, lambda f: GS.k_matchings(k, graphset=f), lambda g: top(g) <= k
            b = {v: k if v in wide.HUBS else 2 for v in wide.HUBS + tuple(x(i) for i in range(n))}
            yield "b_matchings(%d)" % k, lambda f: GS.b_matchings(b, graphset=f), lambda g: all(d <= b[v] for v, d in g.deg.items())
            b1 = {v: k if v == 1 else 1 if v >= 10 and v < 10 + k else 0 for v in b}
            yield "f_factors(%d)" % k, lambda f: GS.f_factors(b1, graphset=f), lambda g: all(g.d(v) == b1[v] for v in b1)
            for c in (True, False):
                yield "degree_distribution(%d of 1, %r)" % (k, c), lambda f: GS.degree_distribution_graphs({0: -1, 1: k, 2: -1, 3: -1, 4: -1, 256: -1, 257: -1, n: -1}, c, graphset=f), \
                    lambda g: (g.nec == 1 if c else True) and g.dist({0: -1, 1: k, 2: -1, 3: -1, 4: -1, 256: -1, 257: -1, n: -1})
                yield "degree_distribution(%d of 0, %r)" % (k, c), lambda f: GS.degree_distribution_graphs({**{i: -1 for i in range(1, n + 1)}, 0: verts - k}, c, graphset=f), \
                    lambda g: (g.nec == 1 if c else True) and g.count(0) == verts - k
                if k > 2:
                    yield "degree_distribution(one of %d, %r)" % (k, c), lambda f: GS.degree_distribution_graphs({0: -1, 1: -1, 2: -1, k: 1}, c, graphset=f), \
                        lambda g: (g.nec == 1 if c else True) and g.dist({0: -1, 1: -1, 2: -1, k: 1})
        for d in (1, 2, (1, 2), None, 3, (2, 300)):
            lo, hi = (1, verts) if d is None else d if isinstance(d, tuple) else (d, d)
            for c in (True, False):
                yield "regular(%r, %r)" % (d, c), lambda f: GS.regular_graphs(degree=d, is_connected=c, graphset=f), \
                    lambda g: bool(g.es) and len(g.degs) == 1 and lo <= top(g) <= hi and (not c or g.nec == 1)
    wide.run(ctx, n, GS, tests)


def u_long(ctx, n, part):
    """one cycle of n edges, searched whole; the sizes are known in closed form"""
    if part == "cycle":
        GraphSet.set_universe([(i, i % n + 1) for i in range(1, n + 1)], traversal="as-is")
        known = [({2: n}, 1), ({0: ANY, 1: 2, 2: n - 2}, n), ({0: n - 2, 1: 2, 2: ANY}, n), ({0: ANY, 1: 2, 2: ANY}, n * (n - 1)), ({0: ANY, 2: ANY}, (1, 2)),
                 ({0: n - 3, 1: 2, 2: ANY}, n), ({0: ANY, 1: 2, 2: n - 257}, (n if n > 256 else n * (n - 1))), ({0: 1, 1: ANY, 2: ANY}, (n, None)), ({0: n, 1: ANY}, (0, 1)),
                 ({0: ANY, 1: 4, 2: n - 5}, (0, None)), ({1: ANY, 2: n - 2}, (n if n > 4 else 0)), ({0: ANY, 1: ANY, 2: n + 1}, 0)]
    else:
        GraphSet.set_universe([(0, i) for i in range(1, n + 1)], traversal="as-is")      # a star
        known = [({1: n, n: 1}, 1), ({0: 1, 1: n - 1, n - 1: 1}, n), ({0: ANY, 1: 2, 2: 1}, n * (n - 1) // 2), ({0: n - 1, 1: 2}, n), ({0: 3, 1: ANY, n - 3: 1}, n * (n - 1) * (n - 2) // 6),
                 ({0: ANY, 1: 256, 256: 1}, 1 if n == 256 else None), ({0: ANY, 1: 255, 255: 1}, 1 if n == 255 else n if n == 256 else None), ({0: ANY, 1: n + 1}, 0), ({1: n - 1, n - 1: ANY}, 0)]
    for d, size in known:
        for k, conn in enumerate((True, False)):
            s = size[k] if isinstance(size, tuple) else size
            if s is None or any(v < -1 for v in d.values()):
                continue
            ctx.case((part, n, sorted(d.items()), conn), s > 0)
            got = GraphSet.degree_distribution_graphs(d, conn).len()
            if got != s:
                ctx.fail("degree_distribution_graphs of a %s of %d edges" % (part, n), s, got, case=repr((d, conn)))
    for k, c in ((2, True), (2, False)):
        ctx.case((part, n, "regular", k, c))
        got = GraphSet.regular_graphs(degree=k, is_connected=c).len()
        if got != (part == "cycle"):
            ctx.fail("regular_graphs of a %s of %d edges" % (part, n), int(part == "cycle"), got)


def u_big(ctx, name, o):
    """larger universes: all 2^m edge subsets are decided through bitmaps"""
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n, m = B.verts, B.n, B.m

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    maxd = int(B.maxdeg().max())
    for k in range(2, 7):
        cl = [vs for vs in combinations(range(n), k) if all((u, v) in adj or (v, u) in adj for adj in [set(B.E)] for u, v in combinations(vs, 2))]
        t("cliques", (k,), lambda: GraphSet.cliques(k), B.of([B.induced_code(set(vs)) for vs in cl]))
    pos = set(B.E) | {(v, u) for u, v in B.E}
    for k in range(1, 5):
        found = set()
        for X in combinations(range(n), k):
            common = [y for y in range(n) if y not in X and all((x, y) in pos for x in X)]
            for Y in combinations(common, k):
                found.add(B.code([(V[x], V[y]) for x in X for y in Y]))
        t("bicliques", (k, k), lambda: GraphSet.bicliques(k, k), B.of(found))
    t("matchings", (), lambda: GraphSet.matchings(), B.alldeg(lambda v, d: d <= 1))
    t("perfect_matchings", (), lambda: GraphSet.perfect_matchings(), B.alldeg(lambda v, d: d == 1))
    for k in range(0, maxd + 2):
        t("k_matchings", (k,), lambda: GraphSet.k_matchings(k), B.alldeg(lambda v, d: d <= k))
        t("k_factors", (k,), lambda: GraphSet.k_factors(k), B.alldeg(lambda v, d: d == k))
    for j in range(6):
        f = [(i * (j + 1) + j) % (3 + j % 2) for i in range(n)]
        t("b_matchings", (tuple(f),), lambda: GraphSet.b_matchings(dict(zip(V, f))), B.alldeg(lambda v, d: d <= f[v]))
        s = (B.N - 1) * (2 * j + 1) // 13
        f = [int(B.deg[v][s]) for v in range(n)]
        t("f_factors", (tuple(f),), lambda: GraphSet.f_factors(dict(zip(V, f))), B.alldeg(lambda v, d: d == f[v]))
    for conn in (True, False):
        c = B.nec <= 1 if conn else B.all
        t("bipartite_graphs", (conn,), lambda: GraphSet.bipartite_graphs(is_connected=conn), B.bip & c)
        for d in [None] + list(range(1, maxd + 2)) + [(1, 2), (2, 3), (1, n), (2, n), (3, 4)]:
            lo, hi = (1, n) if d is None else d if isinstance(d, tuple) else (d, d)
            exp = B.regular(lo, hi, conn)
            t("regular_graphs", (d, conn), lambda: GraphSet.regular_graphs(degree=d, is_connected=conn), exp)
            t("regular_bipartite_graphs", (d, conn), lambda: GraphSet.regular_bipartite_graphs(degree=d, is_connected=conn), exp & B.bip)
    t("letter_P", (), lambda: GraphSet.letter_P_graphs(), B.degree_distribution({0: -1, 1: 1, 2: -1, 3: 1}, True))
    for d in [{0: ANY, 1: 2, 2: ANY}, {0: ANY, 1: ANY}, {0: ANY, 2: ANY}, {0: ANY, 1: 3, 3: 1}, {0: ANY, 2: 2, 3: 2}, {0: ANY, 1: 4, 2: 2}, {1: 2, 2: ANY}, {2: ANY},
              {0: ANY, 1: 1, 2: 1, 3: 1}, {0: 1, 1: ANY, 2: ANY}, {0: n - 4, 1: 4}, {0: ANY, 1: ANY, 2: ANY, 3: ANY}, {0: ANY, 3: ANY}, {0: n - 6, 2: 6}, {0: ANY, 1: 6, 3: 2},
              {0: ANY, 1: 2, 2: 3, 3: 0}, {1: 4, 2: ANY, 3: ANY}, {0: ANY, 4: 1, 1: ANY, 2: ANY}]:
        for conn in (True, False):
            t("degree_distribution", (tuple(sorted(d.items())), conn), lambda: GraphSet.degree_distribution_graphs(d, conn), B.degree_distribution(d, conn))


def units(tier):
    q = tier == "quick"
    u = []
    for k, n in enumerate((130, 257, 300) + (() if q else (256, 258, 515, 700))):
        u.append(Unit("wide-%d" % n, u_wide, (n,), seq=k % 2 == 1, timeout=3000))
    for n in (20, 255, 256, 257, 300) + (() if q else (254, 258, 511, 512, 513, 600)):
        for part in ("cycle", "star"):
            u.append(Unit("long-%s-%d" % (part, n), u_long, (n, part), seq=n % 2 == 1, timeout=3000))
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for name in sorted(gref.structured(), key=lambda x: -len(gref.structured()[x])):
        for o in range(5):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, o), seq=o % 2 == 1))
    for p in range(8):
        u.append(Unit("all4-%d" % p, u_all4, (p, 8), seq=p % 2 == 1))
    for p in range(24):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 24, 1 if q else 2), seq=p % 2 == 1))
    for p in range(32):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 32, 1 if q else 5, 1 if q else 2), seq=p % 2 == 1))
    if not q:
        for p in range(48):
            u.append(Unit("atlas6-%d" % p, u_atlas, (6, p, 48, 2, 13), seq=p % 2 == 1))
    return u + large.units(PROPERTY, tier)
