"""C11: partitions and balanced partitions."""
from itertools import product
from vrun import Unit
import bigref, gref, large
from graphillion import GraphSet

PROPERTY, LEVEL, VARIANT = "C11", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes, weights and bounds against a brute-force reference model"
NOTE = ("Every listed universe, order, weight vector and bound runs on the real builders (serial and multi-threaded) and is compared "
        "with a filter over all edge subsets; other graphs and weights are outside the bounds.")
RULE = ("one evaluation = one call on one ordered universe with one parameter tuple, compared member by member; "
        "non-trivial if the expected family is not empty")
ASSUMPTIONS = ["universes are simple graphs; weights are non-negative integers below 2^32, with any sum; ratio is 0 (no ratio) or >= 1; a part's weight is the sum of its vertices' weights, default 1"]
BOUNDS = {"quick": "all labelled graphs on <= 4 vertices, all 5-vertex ones in one order, structured graphs: all part-count ranges; weight vectors over {0,1,2,5} on "
                   "4 vertices, weights up to 2^32-1, ratio in {0,1,1.5,2,3}, lower/upper/num_comps menus"
                   "; K6, 3x4 grid, Petersen graph, K4,4, ladders, wheels, K2,7, trees, cycles and others of 12..18 edges in 2 orders with every one of the 2^m edge subsets decided; 17,000 separate edges (34,000 vertices) against closed forms",
          "thorough": "all ordered edge lists over K4, 5-vertex graphs in 5 orders, 6-vertex graphs up to isomorphism"}


def bal(ctx, U, w, ratio, lo, up, k, pass_w=True):
    g = U.g
    ctx.case((U.edges, "balanced", w, ratio, lo, up, k, pass_w))
    kw = {}
    if pass_w:
        kw["weight_list"] = {g.verts[i]: x for i, x in enumerate(w)}
    if ratio:
        kw["ratio"] = ratio
    if lo is not None:
        kw["lower"] = lo
    if up is not None:
        kw["upper"] = up
    if k != -1:
        kw["num_comps"] = k
    exp = g.balanced(w, ratio, lo or 0, 1 << 60 if up is None else up, k)
    if exp:
        ctx.nt()
    gref.compare(ctx, U, "balanced_partitions", GraphSet.balanced_partitions(**kw), exp)


def go(ctx, U, level):
    g = U.g
    n = g.n
    ctx.case((U.edges, "partitions"))
    gref.compare(ctx, U, "partitions()", GraphSet.partitions(), g.partitions(1, n))
    for lo in range(1, n + 2):
        for hi in range(lo, n + 2):
            exp = g.partitions(lo, hi)
            ctx.case((U.edges, "partitions", lo, hi), bool(exp))
            gref.compare(ctx, U, "partitions(lb,ub)", GraphSet.partitions(num_comp_lb=lo, num_comp_ub=hi), exp)
        exp = g.partitions(lo, 99)
        ctx.case((U.edges, "partitions", lo), bool(exp))
        gref.compare(ctx, U, "partitions(lb)", GraphSet.partitions(num_comp_lb=lo), exp)
    W = [tuple(1 for _ in range(n)), tuple(i + 1 for i in range(n)), tuple((i * 3 + 1) % 4 for i in range(n)),
         tuple(1 + (i % 2) for i in range(n)), tuple(5 if i == 0 else 1 for i in range(n)), tuple(0 for _ in range(n)),
         tuple(1000 * (i + 1) for i in range(n)), tuple(100000 + 7 * i for i in range(n)),
         tuple((1 << 30) + i for i in range(n)), tuple((1 << 32) - 1 - 3 * (i % 2) for i in range(n))]
    if level >= 2:
        W += list(product((0, 1, 2, 5), repeat=n)) if n <= 3 else list(product((1, 3), repeat=n)) if n == 4 else []
    for j, w in enumerate(W):
        tot = sum(w)
        for ratio in (0, 1.0, 1.5, 2, 3, 1.25):
            for k in (-1, 1, 2, 3, n):
                bounds = [(None, None), (w[0], None), (None, tot // 2 + 1), (tot // 3, tot - tot // 3), (1, max(w)), (tot + 1, None), (None, max(w) - 1)]
                if level < 2 or j >= 10:
                    bounds = bounds[(j + k) % 2::2] if level else bounds[:1]
                for lo, up in bounds:
                    if up is not None and up < (lo or 0):
                        continue      # refused with an exception
                    bal(ctx, U, w, ratio, lo, up, k)
    one = tuple(1 for _ in range(n))
    for ratio in (0, 1, 2):
        for k in (-1, 2):
            bal(ctx, U, one, ratio, None, None, k, False)
            bal(ctx, U, one, ratio, 2, 3, k, False)


def u_labelled(ctx, n, part, parts, norders, level):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            os = gref.orders(e)
            for o in os[:norders] if norders > 1 else [os[(k // parts) % len(os)]]:
                go(ctx, gref.Univ(o), level)


def u_lists(ctx, n, part, parts, step):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part and (k // parts) % step == 0:
            go(ctx, gref.Univ(e), 0)


def u_atlas(ctx, n, part, parts, norders, hi):
    for k, e in enumerate(gref.atlas(n, hi=hi)):
        if k % parts == part:
            for o in gref.orders(e)[:norders]:
                go(ctx, gref.Univ(o), 1)


def u_struct(ctx, name, o):
    os = gref.orders(gref.structured()[name])
    if o < len(os):
        go(ctx, gref.Univ(os[o]), 0 if len(os[o]) > 9 else 1)


def u_big(ctx, name, o):
    """larger universes: all 2^m edge subsets are decided through bitmaps"""
    E = bigref.orders({**bigref.graphs(), **bigref.larger()}[name], 4)[o]
    B = bigref.ds(E)
    V, n, m = B.verts, B.n, B.m

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    t("partitions()", (), lambda: GraphSet.partitions(), B.closed())
    for lo in range(1, n + 1):
        for hi in sorted({lo, lo + 1, n}):
            t("partitions", (lo, hi), lambda: GraphSet.partitions(num_comp_lb=lo, num_comp_ub=hi), B.closed() & (B.ncomp >= lo) & (B.ncomp <= hi))
    W = [(1,) * n, tuple(i + 1 for i in range(n)), tuple((i * 3 + 1) % 4 for i in range(n)), tuple(5 if i == n // 2 else 1 for i in range(n)),
         tuple(100000 + 7 * i for i in range(n)), tuple(2 ** i for i in range(n)), tuple(40000 * (i % 3) for i in range(n)),
         tuple((1 << 31) + i * i for i in range(n))]
    for j, w in enumerate(W):
        tot = sum(w)
        for r, ratio in enumerate((0, 1.0, 1.5, 2, 3)):
            for k in (-1, 2, 3, n // 2):
                bounds = [(None, None), (w[0], None), (None, tot // 2 + 1), (tot // 4, tot - tot // 4), (1, max(w)), (max(w), 2 * max(w))]
                for lo, up in bounds[(j + r + k) % 3::3]:
                    if up is not None and up < (lo or 0):
                        continue
                    kw = {"weight_list": dict(zip(V, w))}
                    if ratio:
                        kw["ratio"] = ratio
                    if lo is not None:
                        kw["lower"] = lo
                    if up is not None:
                        kw["upper"] = up
                    if k != -1:
                        kw["num_comps"] = k
                    t("balanced_partitions", (w, ratio, lo, up, k), lambda: GraphSet.balanced_partitions(**kw),
                      B.balanced(w, ratio, lo or 0, 1 << 50 if up is None else up, k))


def units(tier):
    q = tier == "quick"
    u = []
    for name in list(bigref.graphs()) + ([] if q else list(bigref.larger())):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1 or name in bigref.larger(), timeout=3000))
    for name in sorted(gref.structured(), key=lambda x: -len(gref.structured()[x])):
        for o in range(5):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, o), seq=o % 2 == 1))
    for p in range(16):
        u.append(Unit("labelled4-%d" % p, u_labelled, (4, p, 16, 5, 2), seq=p % 2 == 1))
    for p in range(48):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 48, 1 if q else 5, 1), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 16, 1), seq=p % 2 == 1))
    if not q:
        for p in range(48):
            u.append(Unit("atlas6-%d" % p, u_atlas, (6, p, 48, 2, 13), seq=p % 2 == 1))
    return u + large.units(PROPERTY, tier)
