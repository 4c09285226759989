"""C14: directed families."""
from itertools import combinations, product
from vrun import Unit
import bigref, gref, dref, large, wide
from graphillion import DiGraphSet

PROPERTY, LEVEL, VARIANT = "C14", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of digraphs, arc orders and parameters against a brute-force reference model"
NOTE = ("Every listed digraph, arc order and parameter runs on the real builders (serial and multi-threaded) and is compared with a filter over "
        "all arc subsets written from the definitions; digraphs beyond the bounds are not covered.")
RULE = ("one evaluation = one call on one ordered digraph, compared member by member; non-trivial if the expected family is neither empty nor {{}}")
ASSUMPTIONS = ["a rooted forest with given roots has exactly those roots, each with an outgoing arc (as implemented and commented); a rooted tree may be the bare root (empty arc set) unless spanning",
               "spanning means every vertex of the universe has an arc"]
BOUNDS = {"quick": "all ordered arc lists over 3 vertices (1956), all 4095 digraphs on 4 labelled vertices in one order (degree menus thinned), every 8th tournament on 5 vertices, bidirected path/cycle/grid/wheel/K4 "
                   "and oriented 5..6-vertex digraphs in several orders; every s, t, root, root set of <=2 (all subsets for n<=3)"
                   "; 12 digraphs of 13..17 arcs in 2 orders with every arc subset decided; universes of 4 hubs and 130, 257 and 300 further vertices (frontiers of over 256 vertices) with some hundreds of listed candidates around the sizes 127, 128, 255, 256, 257; 17,000 separate edges (34,000 vertices) against closed forms",
          "thorough": "all 4-vertex digraphs in 5 orders with full menus, all ordered lists of <=4 arcs over 4 vertices, all tournaments on 5 vertices, bidirected K5"}

DEG = [None, 0, 1, 2, range(0, 2), range(1, 3), range(0, 3, 2), [1, 2], [1]]


def norm(r):
    if isinstance(r, int):
        return (r,)
    return tuple(r)


def go(ctx, U, level):
    g, D = U.g, DiGraphSet
    n, V = g.n, g.verts
    arcs = U.arcs

    def t(what, args, gs, exp):
        ctx.case((arcs, what) + args, exp not in (frozenset(), frozenset([0])))
        dref.compare(ctx, U, what, gs(), exp)
    t("directed_cycles", (), lambda: D.directed_cycles(), g.cycles(False))
    t("directed_hamiltonian_cycles", (), lambda: D.directed_hamiltonian_cycles(), g.cycles(True))
    for a in range(n):
        for b in range(n):
            if a != b and (level or (a + b) % 2):
                for h in (False, True):
                    t("directed_st_paths", (V[a], V[b], h), lambda: D.directed_st_paths(V[a], V[b], h), g.st_paths(a, b, h))
        for sp in (False, True):
            t("rooted_trees", (V[a], sp), lambda: D.rooted_trees(V[a], sp), g.trees(a, sp))
    rsets = [()]
    for k in range(1, (n if n <= 3 or level > 1 else 2) + 1):
        rsets += list(combinations(range(n), k))
    for rs in rsets:
        for sp in (False, True):
            rr = [V[i] for i in rs]
            t("rooted_forests", (rr, sp), lambda: D.rooted_forests(rr, sp), g.forests(rs, sp))
    t("rooted_forests", (None,), lambda: D.rooted_forests(), g.forests((), False))
    t("rooted_forests", (None, True), lambda: D.rooted_forests(is_spanning=True), g.forests((), True))
    t("graphs", (), lambda: D.graphs(), g.where(lambda s: True))

    def deg(ic, oc):
        kw = {}
        if ic is not None:
            kw["in_degree_constraints"] = {V[v]: r for v, r in ic.items()}
        if oc is not None:
            kw["out_degree_constraints"] = {V[v]: r for v, r in oc.items()}
        ctx.case((arcs, "graphs", ic, oc))
        exp = g.degrees({v: norm(r) for v, r in (ic or {}).items()}, {v: norm(r) for v, r in (oc or {}).items()})
        if exp and len(exp) < g.N:
            ctx.nt()
        dref.compare(ctx, U, "graphs(degrees)", D.graphs(**kw), exp)
    deg({}, {})
    for v in range(n):
        for r in DEG[1:] if level else DEG[1 + v % 2::3]:
            deg({v: r}, None)
            deg(None, {v: r})
            deg({v: r}, {(v + 1) % n: r})
    combos = list(product(DEG, repeat=n)) if n <= 3 else list(product(DEG[1:5], repeat=min(n, 4)))
    step = {0: 41, 1: 17, 2: 3, 3: 1}[level]
    for j, c in enumerate(combos):
        if j % step == 0:
            ic = {v: r for v, r in enumerate(c) if r is not None}
            d = combos[(j * 7 + 3) % len(combos)]
            oc = {v: r for v, r in enumerate(d) if r is not None}
            deg(ic, oc)
            if level:
                deg(ic, None)
                deg(None, oc)


def u_ordered(ctx, n, lo, hi, part, parts, level):
    for k, a in enumerate(dref.ordered(n, lo, hi)):
        if k % parts == part:
            go(ctx, dref.DUniv(a), level)


def u_all4(ctx, part, parts, norders, level):
    for k, a in enumerate(dref.digraphs(4)):
        if k % parts == part:
            os = gref.orders(a)
            for o in os[:norders] if norders > 1 else [os[(k // parts) % len(os)]]:
                go(ctx, dref.DUniv(o), level)


def u_tour(ctx, part, parts, step, level):
    for k, a in enumerate(dref.tournaments(5)):
        if k % parts == part and (k // parts) % step == 0:
            os = gref.orders(a)
            go(ctx, dref.DUniv(os[(k // parts) % len(os)]), level)


STRUCT = {
    "bipath5": dref.both(gref.CATERPILLAR[:3] + [(4, 5)]), "biC5": dref.both(gref.cycle(5)), "biC4": dref.both(gref.cycle(4)),
    "biK4": dref.all_arcs(4), "bitri2": dref.both([(1, 2), (2, 3), (1, 3)]) + dref.both([(4, 5), (5, 6), (4, 6)]),
    "grid23dag": gref.grid(2, 3), "grid33dag": gref.grid(3, 3), "grid23mix": gref.grid(2, 3) + [(5, 2), (4, 1), (6, 3), (2, 1)],
    "dcyc6": [(i, i % 6 + 1) for i in range(1, 7)], "W5o": [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1), (1, 6), (6, 2), (3, 6), (6, 4), (5, 6)],
    "revstar": [(2, 1), (3, 1), (4, 1), (5, 1), (1, 6), (6, 2)], "twoparts": [(1, 2), (2, 1), (3, 4), (4, 5), (5, 3), (6, 7)],
    "dK33": gref.kab(3, 3), "mixbip": [(1, 4), (5, 1), (2, 4), (2, 5), (6, 2), (3, 6), (4, 3), (5, 3), (6, 1)],
    "biW4h": dref.both([(1, 2), (2, 3), (3, 4), (1, 4)]) + [(5, 1), (2, 5), (5, 3), (4, 5)],
}


def u_struct(ctx, name, o, level):
    os = gref.orders(STRUCT[name])
    if o < len(os):
        go(ctx, dref.DUniv(os[o]), level)


def u_wide(ctx, n):
    """frontiers of hundreds of vertices: listed candidates through graphset="""
    DS, x = DiGraphSet, wide.x
    far = x(n - 1)

    def tests(n, verts):
        yield "directed_cycles", lambda f: DS.directed_cycles(graphset=f), lambda g: g.dcycle()
        yield "directed_hamiltonian_cycles", lambda f: DS.directed_hamiltonian_cycles(graphset=f), lambda g: False
        for s, t in ((1, 2), (2, 1), (3, 4), (1, 4), (3, 1), (1, x(0)), (x(0), 2), (1, far), (x(0), far), (x(min(256, n - 1)), 4), (2, x(min(256, n - 1)))):
            yield "st_paths(%r, %r)" % (s, t), lambda f: DS.directed_st_paths(s, t, graphset=f), lambda g: g.dpath(s, t)
        for r in (1, 2, 3, x(0), x(min(256, n - 1))):
            yield "rooted_trees(%r)" % r, lambda f: DS.rooted_trees(r, graphset=f), lambda g: not g.es or g.nec == 1 and g.forest([r])
            yield "rooted_trees(%r, spanning)" % r, lambda f: DS.rooted_trees(r, True, graphset=f), lambda g: g.nec == 1 and g.forest([r]) and len(g.deg) == verts
        for rs in ((), (1,), (1, 2), (1, 3), (1, 2, 3), (3,), (x(0),), (1, far)):
            yield "rooted_forests%r" % (rs,), lambda f: DS.rooted_forests(rs, graphset=f), lambda g: g.forest(rs) if rs else g.anyforest()
            yield "rooted_forests%r spanning" % (rs,), lambda f: DS.rooted_forests(rs, True, graphset=f), lambda g: (g.forest(rs) if rs else g.anyforest()) and len(g.deg) == verts
        for k in sorted({k for k in (0, 1, 2, 127, 128, 255, 256, 257, n - 1, n) if k <= n}):
            for label, ic, oc in (("out", {}, {1: k}), ("in", {2: k}, {}), ("both", {2: range(0, k + 1)}, {1: range(k, n + 1)}), ("leaf", {x(0): [1], 2: [k, k + 1]}, {x(0): range(0, 2)})):
                yield "graphs(%s %d)" % (label, k), lambda f: DS.graphs(in_degree_constraints=ic, out_degree_constraints=oc, graphset=f), \
                    lambda g: all(g.i(v) in norm(r) for v, r in ic.items()) and all(g.o(v) in norm(r) for v, r in oc.items())
    wide.run_directed(ctx, n, DS, tests)


def u_big(ctx, arcs):
    go(ctx, dref.DUniv(arcs), 0)


def acyclic_tournament(n):
    return [(a, b) if (a * b + a) % 3 else (b, a) for a, b in combinations(range(1, n + 1), 2)]


def oriented(edges, k):
    return [(b, a) if (i * k) % 3 == 1 else (a, b) for i, (a, b) in enumerate(edges)]


LARGE = {"bigrid23": dref.both(gref.grid(2, 3)), "biC7": dref.both(gref.cycle(7)), "tour6": acyclic_tournament(6), "dag6": gref.all_edges(6),
         "grid34o": oriented(gref.grid(3, 4), 1), "petersen-o": oriented(bigref.PETERSEN, 2), "W7o": oriented(gref.wheel(7), 1),
         "tree15o": oriented(bigref.graphs()["tree15"], 1), "K44o": oriented(gref.kab(4, 4), 2), "mixed": dref.both(gref.cycle(5)) + [(1, 6), (6, 3), (4, 6), (6, 7), (7, 2)],
         "rootedK27": [(1, v) for v in range(3, 10)] + [(v, 2) for v in range(3, 9)] + [(2, 9)], "biK4+": dref.all_arcs(4) + [(4, 5), (5, 6), (6, 4), (1, 5)]}
LARGER = {"biK5-less": dref.all_arcs(5)[:19], "bigrid33": dref.both(gref.grid(3, 3))[:21], "grid44dag": gref.grid(4, 4)[:22], "tour7": acyclic_tournament(7)[:20]}


def u_large(ctx, name, o):
    """all 2^m arc subsets decided through bitmaps"""
    E = bigref.orders({**LARGE, **LARGER}[name], 4)[o]
    B = bigref.ds(E, True)
    D, V, n = DiGraphSet, B.verts, B.n

    def t(what, args, gs, exp):
        ctx.case((tuple(E), what) + args, bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, what, gs(), exp)
    for h in (False, True):
        t("directed_cycles", (h,), (lambda: D.directed_hamiltonian_cycles()) if h else lambda: D.directed_cycles(), B.dcycles(h))
        for a, b in [(0, n - 1), (n - 1, 0), (1, n - 2), (n // 2, 1), (2, 0)]:
            t("directed_st_paths", (V[a], V[b], h), lambda: D.directed_st_paths(V[a], V[b], h), B.dpaths(a, b, h))
        for a in range(n):
            t("rooted_trees", (V[a], h), lambda: D.rooted_trees(V[a], h), B.dtrees(a, h))
        for rs in [(), (0,), (n - 1,), (0, n - 1), (1, 2), (0, 2, n - 2), tuple(range(n)), (n // 2,), (0, 1, n - 1), tuple(range(0, n, 2))]:
            rs = tuple(dict.fromkeys(rs))
            t("rooted_forests", (tuple(V[i] for i in rs), h), lambda: D.rooted_forests([V[i] for i in rs], h), B.dforests(rs, h))
    t("graphs", (), lambda: D.graphs(), B.all)
    menus = [0, 1, 2, 3, range(0, 2), range(1, 3), range(0, 5, 2), [1, 3], range(2, 4), range(0, 4)]
    for j in range(40):
        ic = {v: menus[(v * (j + 1) + j) % len(menus)] for v in range(n) if (v + j) % (1 + j % 4) == 0}
        oc = {v: menus[(v * (j + 3) + 3 * j) % len(menus)] for v in range(n) if (v * 2 + j) % (1 + j % 5) == 0}
        if j % 5 == 0:                           # around a real subgraph, so that something remains
            s = (B.N - 1) * (2 * j + 1) // 89
            ic = {v: [int(B.ind[v][s]), int(B.ind[v][s]) + 1 + v % 2] for v in ic}
            oc = {v: range(int(B.outd[v][s]), int(B.outd[v][s]) + 2) for v in oc}
        if j % 3 == 1:
            oc = None
        elif j % 3 == 2:
            ic = None
        exp = B.all.copy()
        for c, d in ((ic, B.ind), (oc, B.outd)):
            for v, r in (c or {}).items():
                exp &= bigref.np.isin(d[v], list(norm(r)))
        kw = {}
        if ic is not None:
            kw["in_degree_constraints"] = {V[v]: r for v, r in ic.items()}
        if oc is not None:
            kw["out_degree_constraints"] = {V[v]: r for v, r in oc.items()}
        t("graphs(degrees)", (str(ic), str(oc)), lambda: D.graphs(**kw), exp)


def units(tier):
    q = tier == "quick"
    u = []
    for k, n in enumerate((130, 257, 300) + (() if q else (256, 258, 515, 700))):
        u.append(Unit("wide-%d" % n, u_wide, (n,), seq=k % 2 == 1, timeout=3000))
    for name in list(LARGE) + ([] if q else list(LARGER)):
        for o in range(2 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_large, (name, o), seq=o % 2 == 1 or name in LARGER, timeout=3000))
    if not q:
        u.append(Unit("biK5-less", u_big, (dref.all_arcs(5)[:18],), timeout=3000))
        u.append(Unit("biK5-less-r", u_big, (dref.all_arcs(5)[:1:-1],), seq=True, timeout=3000))
        u.append(Unit("bigrid23", u_big, (dref.both(gref.grid(2, 3)),), timeout=3000))
    for name in sorted(STRUCT, key=lambda x: -len(STRUCT[x])):
        for o in range(3 if q else 5):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, o, 0 if q else 1), seq=o % 2 == 1))
    for p in range(32):
        u.append(Unit("all4-%d" % p, u_all4, (p, 32, 1 if q else 5, 0 if q else 1), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("tour5-%d" % p, u_tour, (p, 16, 8 if q else 1, 0 if q else 1), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("ordered3-%d" % p, u_ordered, (3, 1, 6, p, 16, 1 if q else 3), seq=p % 2 == 1))
    if not q:
        for p in range(32):
            u.append(Unit("ordered4-%d" % p, u_ordered, (4, 1, 4, p, 32, 0), seq=p % 2 == 1))
    return u + large.units(PROPERTY, tier)
