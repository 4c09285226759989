"""C13: enumerations restricted to a family (graphset=...)."""
from itertools import combinations
from vrun import Unit
import bigref, gref
from graphillion import GraphSet, DiGraphSet

PROPERTY, LEVEL, VARIANT = "C13", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of search-space families, enumerations and parameters"
NOTE = ("Every restricting family over universes of up to 3 edges (quick) or 4 edges (thorough), and every family with at most 2 or at least "
        "2^m-1 members over larger ones, is given to every enumeration both as graphset= and as receiver of the method.")
RULE = ("one evaluation = one enumeration restricted to one family on one ordered universe (keyword and method form), compared with the "
        "unrestricted result intersected with the family, and the family compared with what it was; non-trivial if neither "
        "the intersection nor its complement in the unrestricted result is empty")
ASSUMPTIONS = ["the unrestricted results themselves are decided by C08-C10 and C14"]
BOUNDS = {"quick": "all 256 families over every connected/disconnected 3-edge graph shape in 2 edge orders; families of <=2 members and complements of <=1 over 4..6-edge "
                   "graphs; K4, grid23, two_blocks, wheel with families of 1 member, their complements and element/size families; directed universes alike"
                   "; 15 kinds of search spaces over 9 universes of 9..16 edges",
          "thorough": "additionally all 65536 families over 4-edge graphs (one parameter set per enumeration) and more orders"}


def gcalls(V, E):
    """(name, args, kwargs) of every GraphSet enumeration that takes a graphset."""
    a, b, z = V[0], V[1], V[-1]
    m = len(E)
    c = []
    A = lambda name, *args, **kw: c.append((name, args, kw))
    A("graphs")
    for vg in ([[]], [[], []], [[a]], [[a, z]], [[a], [z]], [[a], []], [[a, b], [z]] if z != b else [[a, b]], [V]):
        A("graphs", vertex_groups=vg)
    A("graphs", degree_constraints={a: 1})
    A("graphs", degree_constraints={v: range(0, 3) for v in V})
    A("graphs", degree_constraints={a: range(0, 3, 2), z: range(1, 9)})
    for k in (0, 1, 2, m):
        A("graphs", num_edges=k)
    A("graphs", num_edges=range(1, 3))
    A("graphs", no_loop=True)
    A("graphs", vertex_groups=[[a, z]], no_loop=True, num_edges=range(1, m + 1), degree_constraints={a: range(1, 3)})
    A("graphs", linear_constraints=[([(e[0], e[1], i + 1) for i, e in enumerate(E)], (2, 4))])
    A("graphs", linear_constraints=[([E[0], E[-1]], (1, 1))])
    A("graphs", linear_constraints=[([E[0] + (-1,), E[-1] + (2,)], (0, 1))], no_loop=True)
    for vs in ([a], [a, z], V[:3], V):
        A("connected_components", vs)
        A("steiner_subgraphs", vs)
        A("steiner_trees", vs)
        A("steiner_cycles", vs)
        A("steiner_paths", vs)
    for k in (2, 3, 4):
        A("cliques", k)
    A("bicliques", 1, 1)
    A("bicliques", 2, 2)
    for r in (None, a, z):
        for s in (False, True):
            A("trees", r, s)
    for rs in ([a], [a, z], [], V):
        for s in (False, True):
            A("forests", rs, s)
    A("cycles")
    A("cycles", True)
    for t1, t2 in ((a, z), (a, b), (a, None), (None, None)):
        for h in (False, True):
            A("paths", t1, t2, h)
    A("matchings")
    A("perfect_matchings")
    A("k_matchings", 1)
    A("k_matchings", 2)
    A("b_matchings", {v: 1 + i % 2 for i, v in enumerate(V)})
    A("k_factors", 1)
    A("k_factors", 2)
    A("f_factors", {v: 1 + i % 2 for i, v in enumerate(V)})
    A("f_factors", {v: i % 2 for i, v in enumerate(V)})
    for d in (None, 1, 2, (1, 2), (0, 1), (2, 3)):
        for conn in (True, False):
            A("regular_graphs", d, conn)
    for d in (None, 1, 2, (1, 2)):
        for conn in (True, False):
            A("regular_bipartite_graphs", d, conn)
    A("bipartite_graphs", True)
    A("bipartite_graphs", False)
    for dist in ({0: -1, 1: 2}, {0: -1, 1: 2, 2: -1}, {0: -1, 1: -1, 2: -1, 3: -1}, {0: -1, 2: 3}, {0: len(V)}):
        for conn in (True, False):
            A("degree_distribution_graphs", dist, conn)
    A("letter_P_graphs")
    return c


def dcalls(V, E):
    a, b, z = V[0], V[1], V[-1]
    c = []
    A = lambda name, *args, **kw: c.append((name, args, kw))
    A("directed_cycles")
    A("directed_hamiltonian_cycles")
    for s, t in ((a, z), (z, a), (a, b)):
        for h in (False, True):
            A("directed_st_paths", s, t, h)
    for rs in ([a], [a, z], [], V, None):
        for s in (False, True):
            A("rooted_forests", rs, s)
    for r in (a, z):
        for s in (False, True):
            A("rooted_trees", r, s)
    A("graphs")
    A("graphs", in_degree_constraints={a: 1})
    A("graphs", out_degree_constraints={z: range(0, 1)})
    A("graphs", in_degree_constraints={v: range(0, 2) for v in V}, out_degree_constraints={v: range(0, 2) for v in V})
    return c


class U:
    def __init__(self, cls, edges):
        self.cls, self.edges = cls, list(edges)
        cls.set_universe(self.edges, traversal="as-is")
        self.bit = {e: 1 << i for i, e in enumerate(self.edges)}
        self.V = sorted({v for e in edges for v in e})
        self.m = len(self.edges)

    def masks(self, gs):
        out = [sum(self.bit[e] for e in s) for s in gs]
        r = frozenset(out)
        assert len(r) == len(out), "member delivered twice"
        return r

    def make(self, fam):
        return self.cls([[e for e in self.edges if m & self.bit[e]] for m in fam])


def families(m, mode):
    N = 1 << m
    full = range(N)
    if mode == "all":
        for code in range(1 << N):
            yield [s for s in full if code >> s & 1]
        return
    yield []
    yield list(full)
    for s in full:
        yield [s]
    for s in full:
        yield [t for t in full if t != s]
    for i in range(m):
        yield [s for s in full if s >> i & 1]
        yield [s for s in full if not s >> i & 1]
    for k in range(m + 1):
        yield [s for s in full if bin(s).count("1") <= k]
        yield [s for s in full if bin(s).count("1") == k]
    yield [s for s in full if s % 3 == 1]
    yield [s for s in full if s % 5 in (0, 2)]
    if mode == "pairs":
        for p in combinations(full, 2):
            yield list(p)


def go(ctx, clsname, edges, mode, part, parts, callstep=1):
    cls = {"G": GraphSet, "D": DiGraphSet}[clsname]
    u = U(cls, edges)
    calls = (gcalls if clsname == "G" else dcalls)(u.V, u.edges)[::callstep]
    base = []
    for name, args, kw in calls:
        ctx.case((clsname, edges, name, args, kw, "unrestricted"))
        base.append(u.masks(getattr(cls, name)(*args, **kw)))
    for k, fam in enumerate(families(u.m, mode)):
        if k % parts != part:
            continue
        X = u.make(fam)
        F = frozenset(fam)
        for (name, args, kw), R in zip(calls, base):
            exp = R & F
            ctx.case((clsname, edges, name, args, kw, fam), bool(exp) and exp != R)
            got = u.masks(getattr(cls, name)(*args, graphset=X, **kw))
            if got != exp:
                ctx.fail("restricted enumeration differs from intersection", sorted(exp), sorted(got))
            got = u.masks(getattr(X, name)(*args, **kw))
            if got != exp:
                ctx.fail("method call on a family differs from intersection", sorted(exp), sorted(got))
        if u.masks(X) != F:
            ctx.fail("the search space was changed", sorted(F), sorted(u.masks(X)))
    if k + 1 < parts:
        pass


THREE = {"tri": [(1, 2), (1, 3), (2, 3)], "path": [(1, 2), (2, 3), (3, 4)], "star": [(1, 2), (1, 3), (1, 4)], "p2k2": [(1, 2), (2, 3), (4, 5)], "3k2": [(1, 2), (3, 4), (5, 6)]}
FOUR = {"C4": [(1, 2), (1, 4), (2, 3), (3, 4)], "paw": [(1, 2), (1, 3), (2, 3), (3, 4)], "P5": [(1, 2), (2, 3), (3, 4), (4, 5)], "K13e": [(1, 2), (1, 3), (1, 4), (4, 5)], "trik2": [(1, 2), (1, 3), (2, 3), (4, 5)]}
MORE = {"diamond": [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)], "K4": gref.all_edges(4), "bull": [(1, 2), (2, 3), (1, 3), (1, 4), (2, 5)], "C5": gref.cycle(5)}
BIG = {"grid23": gref.grid(2, 3), "two_blocks": gref.TWO_BLOCKS, "W4": gref.wheel(4)}
D3 = {"d2": [(1, 2), (2, 1), (2, 3)], "dtri": [(1, 2), (2, 3), (3, 1)], "dpath": [(1, 2), (2, 3), (4, 3)], "dstar": [(1, 2), (1, 3), (4, 1)]}
D4 = {"e4": [(1, 2), (2, 1), (2, 3), (3, 1)], "e6": [(1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2)], "dsq": [(1, 2), (2, 3), (3, 4), (4, 1), (1, 3)]}


LARGE = {"K5": gref.all_edges(5), "grid33": gref.grid(3, 3), "ladder5": gref.ladder(5), "W6": gref.wheel(6), "tree15": bigref.graphs()["tree15"],
         "K4+K4+e": bigref.graphs()["K4+K4+e"], "chords": bigref.graphs()["chords"]}
DLARGE = {"bigrid23": gref.grid(2, 3) + [(b, a) for a, b in gref.grid(2, 3)][:6], "tour5+": [(a, b) for a, b in combinations(range(1, 6), 2)] + [(5, 1), (3, 1), (6, 1), (2, 6)]}


def u_big(ctx, clsname, name, o, part, parts):
    """larger universes: unrestricted result and restriction as bitmaps"""
    cls = {"G": GraphSet, "D": DiGraphSet}[clsname]
    E = bigref.orders((LARGE if clsname == "G" else DLARGE)[name], 4)[o]
    B = bigref.ds(E, clsname == "D")
    calls = (gcalls if clsname == "G" else dcalls)(B.verts, B.edges)
    base = []
    for nm, args, kw in calls:
        ctx.case((clsname, name, o, nm, args, kw, "unrestricted"))
        base.append(bigref.bitmap(getattr(cls, nm)(*args, **kw).dumps(), B.m))
    for k, (fn, F) in enumerate(bigref.pool(B.m).items()):
        if k % parts != part:
            continue
        X = cls.loads(bigref.todump(F))
        for j, ((nm, args, kw), R) in enumerate(zip(calls, base)):
            exp = R & F
            ctx.case((clsname, name, o, nm, args, kw, fn), bool(exp.any()) and not (exp == R).all())
            if (j + k) % 2:
                bigref.compare(ctx, B, "restricted enumeration differs from intersection", getattr(cls, nm)(*args, graphset=X, **kw), exp)
            else:
                bigref.compare(ctx, B, "method call on a family differs from intersection", getattr(X, nm)(*args, **kw), exp)
        bigref.compare(ctx, B, "the search space was changed", X, F)


def units(tier):
    q = tier == "quick"
    u = []
    for c, G in (("G", LARGE), ("D", DLARGE)):
        for n in G:
            for o in range(1 if q else 4):
                for p in range(3):
                    u.append(Unit("big-%s-%s-%d-%d" % (c, n, o, p), u_big, (c, n, o, p, 3), seq=p % 2 == 1, timeout=3000))

    def add(c, name, edges, mode, parts, norders, step=1):
        for o, e in enumerate(gref.orders(edges)[:norders]):
            for p in range(parts):
                u.append(Unit("%s-%s-%s-o%d-%d%s" % (c, name, mode, o, p, "" if step == 1 else "s%d" % step), go,
                              (c, e, mode, p, parts, step), seq=(o + p) % 2 == 1))
    for n, e in BIG.items():
        add("G", n, e, "some", 3, 2 if q else 4, 1)
    for n, e in MORE.items():
        add("G", n, e, "some" if q else "pairs", 1 if q else 6, 2 if q else 4)
    for n, e in FOUR.items():
        add("G", n, e, "pairs", 2, 1 if q else 4)
        if not q:
            add("G", n, e, "all", 24, 1)
    for n, e in THREE.items():
        add("G", n, e, "all", 2, 2 if q else 6)
    for n, e in D4.items():
        add("D", n, e, "pairs", 2 if len(e) < 6 else 6, 2 if q else 4)
        if not q and len(e) == 4:
            add("D", n, e, "all", 8, 2)
    for n, e in D3.items():
        add("D", n, e, "all", 1, 2 if q else 5)
    return u
