"""C12: induced, weighted induced and forbidden-induced families, chordal graphs."""
from itertools import combinations, product
import numpy as np
from vrun import Unit
import bigref, gref
from graphillion import GraphSet
from graphillion.graphclass import GraphClass
import _graphillion

PROPERTY, LEVEL, VARIANT = "C12", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes, weights and forbidden families against a brute-force reference model"
NOTE = ("Every listed universe, order and parameter runs on the real builders (serial and multi-threaded) and is compared with a "
        "classification of all edge subsets; other graphs are outside the bounds.")
RULE = ("one evaluation = one call on one ordered universe with one parameter tuple, compared member by member; non-trivial if the "
        "expected family is neither empty nor everything")
ASSUMPTIONS = ["universes are simple graphs; an induced graph has at least one edge; a forbidden graph f occurs in s when s restricted to f's vertices equals f",
               "weights are non-negative integers below 2^32, with any sum"]
BOUNDS = {"quick": "all ordered edge lists over K4 and all labelled 5-vertex graphs; all forbidden families of size <= 2 on graphs with <= 5 edges, "
                   "all singletons on all graphs with <= 8 edges, structured forbidden families; weight vectors over {0,1,3} and larger ones"
                   "; K6, 3x4 grid, Petersen graph, K4,4, ladders, wheels, K2,7, trees, cycles and others of 12..18 edges in 2 orders with every one of the 2^m edge subsets decided",
          "thorough": "all forbidden families of size <= 3 on small graphs, 5 orders, 6-vertex graphs up to isomorphism"}


def wind(ctx, U, base, w, lo, up, pass_w=True):
    g = U.g
    ctx.case((U.edges, "weighted_induced", w, lo, up, pass_w))
    exp = frozenset(s for s in base if (lo or 0) <= sum(w[v] for v in g.vset(s)) <= (1 << 60 if up is None else up))
    if 0 < len(exp) < len(base):
        ctx.nt()
    kw = {}
    if pass_w:
        kw["weight_list"] = {g.verts[i]: x for i, x in enumerate(w)}
    if lo is not None:
        kw["lower"] = lo
    if up is not None:
        kw["upper"] = up
    gref.compare(ctx, U, "weighted_induced_graphs", GraphSet.weighted_induced_graphs(**kw), exp)


def native_chordal():
    """the search of the extension itself (GraphClass.chordal_graphs goes through forbidden cycles)"""
    e = [x[:2] for x in GraphSet.universe()]
    names = {}
    for v in (v for x in e for v in x):
        names.setdefault(v, b"%d" % len(names))
    return GraphSet(_graphillion._chordal_graphs(graph=[(names[a], names[b]) for a, b in e]))


def forb(ctx, U, F):
    g = U.g
    ctx.case((U.edges, "forbidden", sorted(F)))
    exp = g.forbidden_free(F)
    if 0 < len(exp) < g.N:
        ctx.nt()
    fs = U.make(F)
    gref.compare(ctx, U, "forbidden_induced_subgraphs", GraphSet.forbidden_induced_subgraphs(fs), exp)
    if U.masks(fs) != frozenset(F):
        ctx.fail("the forbidden family was changed", sorted(F), sorted(U.masks(fs)))


def go(ctx, U, level):
    g = U.g
    n = g.n
    base = g.induced_connected()
    ctx.case((U.edges, "induced_graphs"), bool(base))
    gref.compare(ctx, U, "induced_graphs", GraphSet.induced_graphs(), base)
    W = [tuple(1 for _ in range(n)), tuple(i + 1 for i in range(n)), tuple((i * 2) % 3 for i in range(n)),
         tuple(0 for _ in range(n)), tuple(70000 + i * i for i in range(n)), tuple((1 << 32) - 1 - i for i in range(n))]
    if level >= 2 and n <= 4:
        W += list(product((0, 1, 3), repeat=n))
    for w in W:
        sums = sorted({sum(w[v] for v in g.vset(s)) for s in base} | {0})
        for lo in [None] + sums[::max(1, len(sums) // 3)] + [sums[-1] + 1]:
            for up in [None] + sums[::max(1, len(sums) // 3)]:
                if up is None or (lo or 0) <= up:
                    wind(ctx, U, base, w, lo, up)
    one = W[0]
    wind(ctx, U, base, one, None, None, False)
    wind(ctx, U, base, one, 3, None, False)
    wind(ctx, U, base, one, None, 3, False)
    ctx.case((U.edges, "chordal"))
    gref.compare(ctx, U, "chordal_graphs", GraphClass.chordal_graphs(), g.chordal())
    if hasattr(_graphillion, "_chordal_graphs"):
        gref.compare(ctx, U, "_chordal_graphs", native_chordal(), g.chordal())
    # forbidden families
    if g.m <= 8:
        for s in range(1, g.N) if level else range(1, g.N, 5):
            forb(ctx, U, [s])
        forb(ctx, U, [])
        forb(ctx, U, [0])
    allf = {"cycles": g.cycles(False), "paths": g.paths(None, None, False), "edges2": g.where(lambda s: g.size[s] == 2),
            "matchings": g.where(lambda s: max(g.deg[s]) == 1 and g.size[s] == 2), "stars": g.where(lambda s: g.size[s] == 3 and 3 in g.deg[s]),
            "trees": g.where(lambda s: s and g.acyc[s] and g.nec[s] == 1), "all": frozenset(range(1, g.N)),
            "disconnected": g.where(lambda s: g.nec[s] > 1), "odd": frozenset(range(1, g.N, 2)), "big": g.where(lambda s: g.size[s] >= g.m - 1)}
    for k in sorted(allf):
        forb(ctx, U, allf[k])
    if g.m <= (3 if level < 1 else 4 if level < 2 else 5):
        for F in combinations(range(g.N), 2):
            forb(ctx, U, F)
    if level >= 3 and g.m <= 5:
        for F in combinations(range(1, g.N), 3):
            forb(ctx, U, F)


def u_labelled(ctx, n, part, parts, norders, level):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            for o in os[:norders] if norders > 1 else [os[(k // parts) % len(os)]]:
                go(ctx, gref.Univ(o), level)


def u_lists(ctx, n, part, parts):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            go(ctx, gref.Univ(e), 0)


def u_atlas(ctx, n, part, parts, norders, hi):
    for k, e in enumerate(gref.atlas(n, hi=hi)):
        if k % parts == part:
            for o in gref.orders(e)[:norders]:
                go(ctx, gref.Univ(o), 0)


def u_struct(ctx, name, o):
    os = gref.orders(gref.structured()[name])
    if o < len(os):
        go(ctx, gref.Univ(os[o]), 0)


def u_big(ctx, name, o):
    """larger universes: all 2^m edge subsets are decided through bitmaps"""
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n, m = B.verts, B.n, B.m

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    ind = B.induced()
    t("induced_graphs", (), lambda: GraphSet.induced_graphs(), ind)
    W = [(1,) * n, tuple(i + 1 for i in range(n)), tuple((i * 2) % 3 for i in range(n)), tuple(70000 + i * i for i in range(n)), tuple(2 ** i for i in range(n)),
         tuple(9 if i == n // 2 else 1 for i in range(n)), tuple((1 << 31) - 2 + i for i in range(n))]
    for w in W:
        tot, x = sum(w), B.vweight(w)
        for lo, up in ((None, None), (None, tot // 2), (tot // 2, None), (tot // 3, 2 * tot // 3), (w[0] + w[1], w[0] + w[1] + 1), (tot, tot), (0, 0), (tot - 1, tot + 5), (max(w), max(w) + min(w))):
            kw = {"weight_list": dict(zip(V, w))}
            if lo is not None:
                kw["lower"] = lo
            if up is not None:
                kw["upper"] = up
            t("weighted_induced_graphs", (w, lo, up), lambda: GraphSet.weighted_induced_graphs(**kw), ind & (x >= (lo or 0)) & (x <= (1 << 50 if up is None else up)))
    t("weighted_induced_graphs", ("default",), lambda: GraphSet.weighted_induced_graphs(lower=3, upper=n - 2), ind & (B.vweight((1,) * n) >= 3) & (B.vweight((1,) * n) <= n - 2))
    t("chordal_graphs", (), lambda: GraphClass.chordal_graphs(), B.chordal())
    if hasattr(_graphillion, "_chordal_graphs"):
        t("_chordal_graphs", (), native_chordal, B.chordal())
    cyc = np.flatnonzero(B.is_cycle()).tolist()
    p3 = np.flatnonzero(B.is_path() & (B.size == 3)).tolist()
    claw = np.flatnonzero((B.nec == 1) & (B.size == 3) & (B.maxdeg() == 3)).tolist()
    two = np.flatnonzero((B.nec == 2) & (B.size == 2)).tolist()
    one = np.flatnonzero(B.size == 1).tolist()
    full = [B.induced_code(set(range(n)) - {v}) for v in range(n)]
    for k, F in enumerate((cyc, cyc[:1], p3, claw, two, one[::2], two[::7] + claw[::2], p3[::5] + cyc[::3], full, one[:1] + two[1:2] + cyc[-1:])):
        F = sorted(set(F))
        if 0 < len(F) <= 400:
            t("forbidden_induced_subgraphs", (k, len(F)), lambda: GraphSet.forbidden_induced_subgraphs(GraphSet(B.members(B.of(F), 400))), B.forbidden_free(F))


def units(tier):
    q = tier == "quick"
    u = []
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for name in sorted(gref.structured(), key=lambda x: -len(gref.structured()[x])):
        for o in range(5):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, o), seq=o % 2 == 1))
    for p in range(16):
        u.append(Unit("labelled4-%d" % p, u_labelled, (4, p, 16, 1 if q else 5, 2 if q else 3), seq=p % 2 == 1))
    for p in range(48):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 48, 1 if q else 5, 0 if q else 1), seq=p % 2 == 1))
    for p in range(24):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 24), seq=p % 2 == 1))
    if not q:
        for p in range(48):
            u.append(Unit("atlas6-%d" % p, u_atlas, (6, p, 48, 2, 12), seq=p % 2 == 1))
    return u
