"""C09: paths, cycles, trees, forests, connectivity and Steiner families."""
from itertools import combinations
from vrun import Unit
import gref, bigref, large, wide
from graphillion import GraphSet

PROPERTY, LEVEL, VARIANT = "C09", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes, edge orders and parameters against a brute-force reference model"
NOTE = ("Every listed universe, edge order and parameter tuple is run on the real builders (serial and multi-threaded) and "
        "compared with a classification of all edge subsets; other graphs are outside the bounds.")
RULE = ("one evaluation = one enumeration call on one ordered universe, compared member by member with the classification "
        "of all edge subsets; non-trivial if the expected family is neither empty nor everything")
ASSUMPTIONS = ["universes are simple graphs without isolated vertices; terminals are distinct vertices of the universe"]
BOUNDS = {"quick": "all 1956 ordered edge lists over K4, all 1023 labelled graphs on 5 vertices in one order each, 13 structured "
                   "graphs (up to 12 edges) in up to 5 orders; all terminals, roots, pairs, flags"
                   "; K6, 3x4 grid, Petersen graph, K4,4, ladders, wheels, K2,7, trees, cycles and others of 12..18 edges in 2 orders with every one of the 2^m edge subsets decided; universes of 4 hubs and 130, 257 and 300 further vertices (frontiers of over 256 vertices) with some hundreds of listed candidates around the sizes 127, 128, 255, 256, 257; 17,000 separate edges (34,000 vertices) against closed forms",
          "thorough": "additionally every labelled 5-vertex graph in 5 orders and every 6-vertex graph up to isomorphism in 2 orders"}


def go(ctx, U, full=True):
    g = U.g
    V, n = g.verts, g.n

    def run(what, gs, exp):
        gref.compare(ctx, U, what, gs, exp)

    def case(*a):
        ctx.case((U.edges,) + a)

    for ham in (False, True):
        case("cycles", ham)
        exp = g.cycles(ham)
        if exp: ctx.nt()
        run("cycles", GraphSet.cycles(is_hamilton=ham), exp)
        case("paths()", ham)
        exp = g.paths(None, None, ham)
        if exp: ctx.nt()
        run("paths()", GraphSet.paths(is_hamilton=ham), exp)
        for i in range(n):
            case("paths(t)", V[i], ham)
            exp = g.paths(i, None, ham)
            if exp: ctx.nt()
            run("paths(t)", GraphSet.paths(V[i], is_hamilton=ham), exp)
            for j in range(n):
                if i != j:
                    case("paths(s,t)", V[i], V[j], ham)
                    exp = g.paths(i, j, ham)
                    if exp: ctx.nt()
                    run("paths(s,t)", GraphSet.paths(V[i], V[j], is_hamilton=ham), exp)
    for span in (False, True):
        for r in [None] + list(range(n)):
            case("trees", r, span)
            exp = g.trees(r, span)
            if exp: ctx.nt()
            run("trees", GraphSet.trees(root=None if r is None else V[r], is_spanning=span), exp)
        for k in range(1, n + 1 if full else 3):
            for rs in combinations(range(n), k):
                case("forests", rs, span)
                exp = g.forests(rs, span)
                if exp: ctx.nt()
                run("forests", GraphSet.forests([V[r] for r in rs], is_spanning=span), exp)
    for k in range(1, n + 1 if full else 4):
        for ts in combinations(range(n), k):
            tv = [V[t] for t in ts]
            base = g.connected_with(ts)
            case("connected_components", tv)
            if base: ctx.nt()
            run("connected_components", GraphSet.connected_components(tv), base)
            case("steiner_subgraphs", tv)
            run("steiner_subgraphs", GraphSet.steiner_subgraphs(tv), base)
            case("steiner_trees", tv)
            run("steiner_trees", GraphSet.steiner_trees(tv), frozenset(s for s in base if g.acyc[s]))
            case("steiner_cycles", tv)
            exp = frozenset(s for s in base if g.is_cycle(s))
            run("steiner_cycles", GraphSet.steiner_cycles(tv), exp)
            case("steiner_paths", tv)
            exp = frozenset(s for s in base if g.is_path(s))
            run("steiner_paths", GraphSet.steiner_paths(tv), exp)


def u_lists(ctx, n, part, parts):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            go(ctx, gref.Univ(e))


def u_labelled(ctx, n, part, parts, norders):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            sel = os[:norders] if norders > 1 else [os[(k // parts) % len(os)]]
            for o in sel:
                go(ctx, gref.Univ(o), full=n <= 5)


def u_atlas(ctx, n, part, parts, norders, hi):
    for k, e in enumerate(gref.atlas(n, hi=hi)):
        if k % parts == part:
            for o in gref.orders(e)[:norders]:
                go(ctx, gref.Univ(o), full=False)


def u_struct(ctx, name):
    e = gref.structured()[name]
    for o in gref.orders(e):
        go(ctx, gref.Univ(o), full=len(e) <= 9)


def u_wide(ctx, n):
    """frontiers of hundreds of vertices: listed candidates through graphset="""
    GS = GraphSet
    x, far = wide.x, wide.x(n - 1)

    def tests(n, verts):
        yield "cycles", lambda f: GS.cycles(graphset=f), lambda g: g.cycle()
        yield "paths", lambda f: GS.paths(graphset=f), lambda g: g.path()
        yield "trees", lambda f: GS.trees(graphset=f), lambda g: g.acyclic and g.nec == 1
        for v in (1, 2, 4, x(0), x(n // 2), far):
            yield "trees(%r)" % v, lambda f: GS.trees(root=v, graphset=f), lambda g: g.acyclic and (not g.es or g.nec == 1 and g.d(v))
            yield "trees(%r, spanning)" % v, lambda f: GS.trees(root=v, is_spanning=True, graphset=f), lambda g: g.acyclic and g.nec == 1 and len(g.deg) == verts
            yield "paths(%r)" % v, lambda f: GS.paths(v, graphset=f), lambda g: g.path() and v in g.ends()
        for s, t in ((1, 2), (1, 4), (1, x(n - 1)), (x(0), x(1)), (x(0), x(min(256, n - 1))), (2, x(0)), (x(1), x(min(257, n - 1))), (1, x(127))):
            yield "paths(%r, %r)" % (s, t), lambda f: GS.paths(s, t, graphset=f), lambda g: g.path() and {s, t} == g.ends()
            yield "connected(%r, %r)" % (s, t), lambda f: GS.connected_components([s, t], graphset=f), lambda g: g.nec == 1 and g.d(s) and g.d(t)
            yield "steiner_subgraphs(%r, %r)" % (s, t), lambda f: GS.steiner_subgraphs([s, t], graphset=f), lambda g: g.nec == 1 and g.d(s) and g.d(t)
            yield "steiner_trees(%r, %r)" % (s, t), lambda f: GS.steiner_trees([s, t], graphset=f), lambda g: g.acyclic and g.nec == 1 and g.d(s) and g.d(t)
            yield "steiner_cycles(%r, %r)" % (s, t), lambda f: GS.steiner_cycles([s, t], graphset=f), lambda g: g.cycle() and g.d(s) and g.d(t)
            yield "steiner_paths(%r, %r)" % (s, t), lambda f: GS.steiner_paths([s, t], graphset=f), lambda g: g.path() and g.d(s) and g.d(t)
        for rs in ((1,), (1, 2), (1, 2, 3, 4), (1, x(n - 1)), (x(0), x(min(256, n - 1))), ()):
            def forest(g):
                c = [g.comp.get(r, r) for r in rs]
                return g.acyclic and len(set(c)) == len(c) and (not rs or set(g.comp.values()) <= set(c))
            yield "forests%r" % (rs,), lambda f: GS.forests(rs, graphset=f), forest
            yield "forests%r spanning" % (rs,), lambda f: GS.forests(rs, is_spanning=True, graphset=f), \
                lambda g: forest(g) and len(set(g.deg) | set(rs)) == verts
    wide.run(ctx, n, GS, tests)


def u_big(ctx, name, o):
    """larger universes: all 2^m edge subsets are decided through bitmaps"""
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n = B.verts, B.n

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    far = n - 1
    pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
    for ham in (False, True):
        t("cycles", (ham,), lambda: GraphSet.cycles(is_hamilton=ham), B.cycles(ham))
        t("paths()", (ham,), lambda: GraphSet.paths(is_hamilton=ham), B.paths(None, None, ham))
        for i in range(n):
            t("paths(t)", (V[i], ham), lambda: GraphSet.paths(V[i], is_hamilton=ham), B.paths(i, None, ham))
        for k, (i, j) in enumerate(pairs):
            if k % 2:
                i, j = j, i
            t("paths(s,t)", (V[i], V[j], ham), lambda: GraphSet.paths(V[i], V[j], is_hamilton=ham), B.paths(i, j, ham))
    for span in (False, True):
        for r in [None] + list(range(n)):
            t("trees", (r, span), lambda: GraphSet.trees(root=None if r is None else V[r], is_spanning=span), B.trees(r, span))
        for rs in [(), tuple(range(n)), tuple(range(0, n, 2)), tuple(range(1, n, 3)), (0, far), (far // 2,), (0, n // 3, 2 * n // 3)] + pairs[::5]:
            rv = [V[r] for r in rs]
            t("forests", (rs, span), lambda: GraphSet.forests(rv, is_spanning=span), B.forests(rs, span))
    for ts in [(i,) for i in range(n)] + pairs[::3] + [tuple(range(0, n, 3)), tuple(range(1, n, 4)), (0, n // 2, far), tuple(range(n)), tuple(range(n - 1))]:
        tv = [V[x] for x in ts]
        base = B.connected_with(ts)
        t("connected_components", (ts,), lambda: GraphSet.connected_components(tv), base)
        t("steiner_subgraphs", (ts,), lambda: GraphSet.steiner_subgraphs(tv), base)
        t("steiner_trees", (ts,), lambda: GraphSet.steiner_trees(tv), base & B.acyc)
        t("steiner_cycles", (ts,), lambda: GraphSet.steiner_cycles(tv), base & B.is_cycle())
        t("steiner_paths", (ts,), lambda: GraphSet.steiner_paths(tv), base & B.is_path())


def units(tier):
    q = tier == "quick"
    u = []
    for k, n in enumerate((130, 257, 300) + (() if q else (256, 258, 515, 700))):
        u.append(Unit("wide-%d" % n, u_wide, (n,), seq=k % 2 == 1, timeout=3000))
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for p in range(16):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 16), seq=p % 2 == 1))
    for p in range(32):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 32, 1 if q else 5), seq=p % 2 == 1))
    for name in gref.structured():
        for s in (False, True):
            u.append(Unit("struct-%s-%s" % (name, "seq" if s else "mp"), u_struct, (name,), seq=s))
    if not q:
        for p in range(48):
            u.append(Unit("atlas6-%d" % p, u_atlas, (6, p, 48, 2, 13), seq=p % 2 == 1))
    return u + large.units(PROPERTY, tier)
