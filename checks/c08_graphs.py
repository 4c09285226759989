"""C08: GraphSet.graphs(...) under every combination of constraints."""
from itertools import combinations, permutations, product
import numpy as np
from vrun import Unit
import bigref, gref, large, wide
from graphillion import GraphSet

PROPERTY, LEVEL, VARIANT = "C08", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes, edge orders and constraint combinations against a brute-force reference model"
NOTE = ("Every listed universe, order and constraint tuple runs on the real builders (serial and multi-threaded) and is compared "
        "with a filter over all edge subsets that applies each constraint's documented meaning.")
RULE = ("one evaluation = one call of GraphSet.graphs on one ordered universe with one constraint tuple, compared member by member "
        "with the filtered list of all edge subsets; non-trivial if the expected family is neither empty nor all subsets")
ASSUMPTIONS = ["universes are simple graphs; a vertex occurs in at most one group; degree and size ranges are ints, ranges or lists with a fixed step",
               "an empty inner list in vertex_groups stands for one further connected component with at least one edge",
               "without vertex_groups any components are allowed; with groups, every edge belongs to a group's component or to one of the empty lists",
               "linear weights are dyadic rationals, so sums are exact"]
BOUNDS = {"quick": "all vertex groupings (set partitions of subsets plus 0..2 free components) on every labelled 4-vertex graph and on the structured graphs; "
                   "x degree menus x size menus x no_loop x linear menus"
                   "; K6, 3x4 grid, Petersen graph, K4,4, ladders, wheels, K2,7, trees, cycles and others of 12..18 edges in 2 orders with every one of the 2^m edge subsets decided; universes of 4 hubs and 130, 257 and 300 further vertices (frontiers of over 256 vertices) with some hundreds of listed candidates around the sizes 127, 128, 255, 256, 257; 17,000 separate edges (34,000 vertices) against closed forms",
          "thorough": "the same on every labelled 5-vertex graph and every ordered edge list over K4"}


def set_partitions(elems):
    """all partitions of all subsets of elems into blocks."""
    elems = list(elems)
    if not elems:
        yield []
        return
    x, rest = elems[0], elems[1:]
    for p in set_partitions(rest):
        yield p
        for i in range(len(p)):
            yield p[:i] + [[x] + p[i]] + p[i + 1:]
        yield [[x]] + p


def groupings(n, cap=None):
    out = [None]
    for p in set_partitions(range(n)):
        for free in (0, 1, 2):
            g = p + [[]] * free
            if g:
                out.append(g)
    return out if cap is None else out[::max(1, len(out) // cap)]


def deg_menu(n, maxd):
    m = [None, {0: 1}, {i: range(0, 3, 2) for i in range(n)}, {0: range(1, maxd + 1), n - 1: 1},
         {i: range(0, 2) for i in range(n)}, {0: range(1, maxd + 2, 2)}, {0: 0}, {i: [1, 3] for i in range(0, n, 2)},
         {n - 1: [2]}, {i: range(1, 3) for i in range(n)}, {i: i % 3 for i in range(n)}, {0: range(2, 5), 1: range(0, 1)},
         {}, {0: maxd + 1}]
    return m


def size_menu(m):
    return [None, 0, 1, range(2, 4), range(0, m + 1, 2), range(1, m + 1, 3), [m], range(m, m + 3), m + 1, range(m // 2, m)]


def lin_menu(g):
    m = g.m
    E = g.edges
    out = [None]
    w1 = [((i * 3) % 5) - 2 for i in range(m)]
    out.append([(w1, -2, 2)])
    out.append([([1] * m, 2, 3)])
    out.append([([0.5 if i % 2 else -0.25 for i in range(m)], -0.25, 0.25), ([1 if i < 2 else 0 for i in range(m)], 0, 1)])
    out.append([([0] * m, 0, 0)])
    out.append([([1] * m, m + 1, m + 2)])
    out.append([([-1] * m, -2, -1), (w1, -9, 0), ([2 ** i for i in range(m)], 3, 2 ** m // 2)])
    return out


def u_wide(ctx, n):
    """frontiers of hundreds of vertices: listed candidates through graphset="""
    GS, x = GraphSet, wide.x
    far, mid = x(n - 1), x(min(256, n - 1))

    def tests(n, verts):
        def groups(gr):
            cols = [c for c in gr if c]

            def ok(g):
                at = [{g.comp.get(v, v) for v in c} for c in cols]
                if any(len(s) != 1 for s in at) or len(set().union(*at)) != len(at):
                    return False
                return len(set(g.comp.values()) - set().union(*at)) == len(gr) - len(cols)
            return ok
        for gr in ([[]], [[], []], [[1]], [[1], [2]], [[1, 2]], [[1, 2], [3, 4]], [[1, x(0)], [3, 4]], [[1, 2], []], [[x(0), x(1)]], [[x(0), mid], []], [[1], [3, far]],
                   [[1], [2], [3], [4]], [[1, 2, 3, 4]], [[x(0)], [mid]], [[1, 2, x(0), x(1)]], [[1, x(127)], [2, x(128)], []]):
            for nl in (False, True):
                yield "vertex_groups=%r no_loop=%r" % (gr, nl), lambda f: GS.graphs(vertex_groups=gr, no_loop=nl, graphset=f), lambda g, ok=groups(gr): ok(g) and (g.acyclic or not nl)
        for k in (0, 1, 2, 3, 126, 127, 128, 254, 255, 256, 257, 258, n - 1, n, 2 * n):
            yield "num_edges=%d" % k, lambda f: GS.graphs(num_edges=k, graphset=f), lambda g: len(g.es) == k
            yield "num_edges=%d.." % k, lambda f: GS.graphs(num_edges=range(k, k + 3), graphset=f), lambda g: k <= len(g.es) < k + 3
            yield "degree 1: %d" % k, lambda f: GS.graphs(degree_constraints={1: k}, graphset=f), lambda g: g.d(1) == k
            yield "degrees %d.." % k, lambda f: GS.graphs(degree_constraints={1: range(k, 2 * n + 1), 2: range(0, k + 1), x(0): range(0, 3)}, graphset=f), lambda g: g.d(1) >= k and g.d(2) <= k and g.d(x(0)) <= 2
            yield "step %d" % k, lambda f: GS.graphs(degree_constraints={1: range(k % 3, 2 * n, 3)}, graphset=f), lambda g: g.d(1) % 3 == k % 3
            yield "total %d" % k, lambda f: GS.graphs(linear_constraints=[([(e, x(i), 0.5) for e in (1, 2) for i in range(n)], (k / 2, k / 2 + 1))], graphset=f), \
                lambda g: k <= sum(1 for a, b in g.es if a <= 2) <= k + 2
        yield "no_loop", lambda f: GS.graphs(no_loop=True, graphset=f), lambda g: g.acyclic
    wide.run(ctx, n, GS, tests)


def call(ctx, U, groups, dc, ne, no_loop, lin, style=0):
    g = U.g
    V = g.verts
    kw = {}
    if groups is not None:
        kw["vertex_groups"] = [[V[v] for v in b] for b in groups]
    if dc is not None:
        kw["degree_constraints"] = {V[v]: r for v, r in dc.items()}
    if ne is not None:
        kw["num_edges"] = ne
    if no_loop:
        kw["no_loop"] = True
    if lin is not None:
        lc = []
        for w, lo, hi in lin:
            expr = []
            for i in range(g.m):
                e = g.edges[i]
                if (style + i) % 2:
                    e = (e[1], e[0])
                if w[i] == 1 and (style + i) % 3 == 0:
                    expr.append(e)
                elif w[i] != 0:
                    expr.append(e + (w[i],))
            lc.append((expr, (lo, hi)))
        kw["linear_constraints"] = lc
    ctx.case((U.edges, groups, dc, ne, no_loop, lin))
    gs = GraphSet.graphs(**kw)
    exp = g.graphs(groups=groups, dc=None if dc is None else {v: (r,) if isinstance(r, int) else r for v, r in dc.items()},
                   ne=(ne,) if isinstance(ne, int) else ne, no_loop=no_loop, lin=lin)
    if 0 < len(exp) < g.N:
        ctx.nt()
    gref.compare(ctx, U, "graphs(%s)" % ", ".join(sorted(kw)), gs, exp)


def go(ctx, U, gcap, cross):
    """gcap: how many groupings are crossed; cross: 0 = one constraint with groups at a time,
    1 = all pairs of further constraints, 2 = full product of short menus."""
    g = U.g
    n, m = g.n, g.m
    maxd = max(g.deg[-1])
    G = groupings(n, gcap)
    D, S, L = deg_menu(n, maxd), size_menu(m), lin_menu(g)
    for i, grp in enumerate(G):
        for nl in (False, True):
            call(ctx, U, grp, None, None, nl, None)
            if cross == 0:
                call(ctx, U, grp, D[1 + i % (len(D) - 1)], None, nl, None)
                call(ctx, U, grp, None, S[1 + i % (len(S) - 1)], nl, None)
                call(ctx, U, grp, None, None, nl, L[1 + i % (len(L) - 1)], i)
            else:
                for d in D:
                    call(ctx, U, grp, d, None, nl, None)
                for s in S:
                    call(ctx, U, grp, None, s, nl, None)
                for l in L:
                    call(ctx, U, grp, None, None, nl, l, i)
        # everything together
        call(ctx, U, grp, D[i % len(D)], S[(i // 2) % len(S)], i % 2 == 0, L[(i // 3) % len(L)], i)
    for d in D:
        for s in S:
            for l in L if cross else L[:3]:
                for nl in (False, True):
                    call(ctx, U, G[(len(d or ()) * 7 + len(L)) % len(G)] if cross else None, d, s, nl, l)


def u_labelled(ctx, n, part, parts, gcap, cross):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            go(ctx, gref.Univ(os[(k // parts) % len(os)]), gcap, cross)


def u_lists(ctx, n, part, parts, gcap):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            go(ctx, gref.Univ(e), gcap, 0)


def u_struct(ctx, name, gcap, o):
    os = gref.orders(gref.structured()[name])
    if o < len(os):
        go(ctx, gref.Univ(os[o]), gcap, 0)


def u_big(ctx, name, o):
    """larger universes: all 2^m edge subsets are decided through bitmaps"""
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n, m = B.verts, B.n, B.m

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    far = n - 1
    G = [None, [[0, far]], [[0], [far]], [[0, far], []], [[0], [n // 2], [far]], [[0, n // 2], [far]], [[]], [[], []], [[1, n // 2], [2, far], []],
         [list(range(n))], [list(range(0, n, 2)), list(range(1, n, 2))], [[v] for v in range(n)], [[v] for v in range(0, n, 3)], [[far, 1], [0]], [[0, 1], [2, 3], [4, 5]],
         [[0, far], [1, far - 1], [2, far - 2]], [[0, 1, 2], [far, far - 1], [], []]]
    D = deg_menu(n, int(B.maxdeg().max())) + [{v: range(0, 3) for v in range(n)}, {v: range(0, 5, 2) for v in range(n)}, {v: [0, 3] for v in range(n)}]
    S, L = size_menu(m), lin_menu(B)
    sets = [(g, nl, None, None, None) for g in G for nl in (False, True)]
    sets += [(None, nl, d, None, None) for d in D for nl in (False, True)]
    sets += [(None, False, None, s, None) for s in S] + [(None, j % 2 == 0, None, None, l) for j, l in enumerate(L)]
    for i, g in enumerate(G):
        sets += [(g, i % 2 == 0, D[1 + (3 * i + k) % (len(D) - 1)], S[(i + k) % len(S)] if k % 2 else None, L[(i + k) % len(L)] if k % 3 == 0 else None) for k in range(4)]
        sets += [(g, False, None, range(2, n, 1 + i % 2), None), (g, True, {n - 1: range(0, 3), n // 2: range(1, 3)}, None, None)]
    for g, nl, d, s, l in sets:
        exp = B.groups(g).copy()
        kw = {}
        if g is not None:
            kw["vertex_groups"] = [[V[v] for v in b] for b in g]
        if nl:
            exp &= B.acyc
            kw["no_loop"] = True
        if d is not None:
            kw["degree_constraints"] = {V[v]: r for v, r in d.items()}
            for v, r in d.items():
                exp &= np.isin(B.deg[v], [r] if isinstance(r, int) else list(r))
        if s is not None:
            kw["num_edges"] = s
            exp &= np.isin(B.size, [s] if isinstance(s, int) else list(s))
        if l is not None:
            kw["linear_constraints"] = [([e + (w,) if w != 1 else e for e, w in zip(E, ws) if w], (lo, hi)) for ws, lo, hi in l]
            for ws, lo, hi in l:
                tot = B.linear(ws)
                exp &= (tot >= lo) & (tot <= hi)
        t("graphs(%s)" % ", ".join(sorted(kw)), (repr((g, nl, d, s, l)),), lambda: GraphSet.graphs(**kw), exp)


def units(tier):
    q = tier == "quick"
    u = []
    for k, n in enumerate((130, 257, 300) + (() if q else (256, 258, 515, 700))):
        u.append(Unit("wide-%d" % n, u_wide, (n,), seq=k % 2 == 1, timeout=3000))
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for name in sorted(gref.structured(), key=lambda x: -len(gref.structured()[x])):
        for o in range(5):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, 12 if q else 150, o), seq=o % 2 == 1))
    for p in range(32):
        u.append(Unit("labelled4-%d" % p, u_labelled, (4, p, 32, None, 0 if q else 1), seq=p % 2 == 1))
    for p in range(64):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 64, 10 if q else 200, 0), seq=p % 2 == 1))
    for p in range(48):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 48, 6 if q else None), seq=p % 2 == 1))
    return u + large.units(PROPERTY, tier)
