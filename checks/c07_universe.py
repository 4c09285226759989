"""C07: universe registration and invariance of answers under its presentation.

Registration is explored as a small state machine: the state is what is
registered for each class, the transitions are set_universe calls (valid and
invalid ones, over every class), and a plain-Python model says what universe(),
the element numbering and the families over it must be after every step.
Invariance is decided by running the same queries under every listed
presentation (order, orientation, traversal, source, names) of a graph."""
from itertools import combinations, permutations, product
from vrun import Unit
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet, GraphClass
from graphillion.edgevertex_setset import EdgeVertexSetSet
from graphillion.universe import Universe
from c15_vertex import NAMES as NAMES15
from c05_history import in_child

PROPERTY, LEVEL, VARIANT = "C07", "model_checking", "ext"
TECHNIQUE = ("explicit-state exploration of all set_universe sequences (valid and refused, all classes) against a plain-Python model, replayed on the real classes, "
             "and exhaustive enumeration of the presentations of small graphs")
NOTE = ("Every sequence of registrations up to the bound is executed on the real classes and compared with the model after every step; every listed presentation "
        "(order, orientation, traversal, source, names, converters) of each graph answers the same 60 queries and must agree up to renaming.")
RULE = "one evaluation = one registration, or one query under one presentation, compared completely; non-trivial if the universe has at least two elements"
ASSUMPTIONS = ["graphs are simple (README: self-loops and multi-edges are not supported); vertices are mutually comparable hashables, equal vertices have equal reprs",
               "no vertex is equal to an edge of the same universe",
               "edges may come as tuples of more than three entries (the rest is ignored, as upstream)"]
BOUNDS = {"quick": "registrations: all edge sets over 4 vertices x all orientations x all traversals and sources, all orders of <= 4 edges, all 5-vertex edge sets, all arc sets over "
                   "3 vertices (4 vertices in part), 9 large graphs; one edge given twice: all positions x forms x orientations x traversals for <= 3 edges; sequences: all of length <= 3 over 40 registrations; presentations of 7 graphs: all edge orders of graphs with "
                   "<= 5 edges (as-is), all sources x traversals x 2^m orientations, 14 kinds of names",
          "thorough": "all 4-vertex arc sets, sequences of length 4, all 720 orders of K4 x orientations, two more graphs"}

TRAV = ("greedy", "bfs", "dfs")


class Names(dict):
    pass


def variant(v, k):
    """an object equal to v, of another type or with another internal structure"""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int) and v < 10 ** 6:
        return (v, float(v), v)[k % 3]
    if isinstance(v, str):
        return "".join(list(v)) if k % 2 else v
    if isinstance(v, tuple):
        t = tuple(variant(x, k + 1) for x in v)
        if k % 2 and len(t) > 1 and t[0] == t[-1]:
            t = (t[0],) * 2 if len(t) == 2 else t
        return t
    return v


def uni_edges():
    return GraphSet.universe()


def strip(l):
    return [e[:2] for e in l]


def check_registered(ctx, given, traversal):
    """given: list of 2- or 3-tuples as passed to GraphSet.set_universe."""
    got = uni_edges()
    want = list(given)
    if traversal == "as-is":
        ctx.eq(got, want, "universe() after as-is")
    elif sorted(map(repr, got)) != sorted(map(repr, want)):
        ctx.fail("universe() after set_universe", want, got)
    es = strip(want)
    vs = {v for e in es for v in e}
    vu = VertexSetSet.universe()
    if len(vu) != len(vs) or set(vu) != vs:
        ctx.fail("VertexSetSet.universe()", sorted(map(repr, vs)), vu)
    ev = EdgeVertexSetSet.universe() if hasattr(EdgeVertexSetSet, "universe") else Universe.edge_vertex_universe()
    if len(ev) != len(es) + len(vs) or set(ev) != set(es) | vs:
        ctx.fail("EdgeVertexSetSet universe", None, ev)
    if len(es) <= 40:
        if GraphSet({}).len() != 2 ** len(es):
            ctx.fail("number of subgraphs", 2 ** len(es), GraphSet({}).len())
        if VertexSetSet({}).len() != 2 ** len(vs):
            ctx.fail("number of vertex sets", 2 ** len(vs), VertexSetSet({}).len())


def single_roundtrip(ctx, es):
    """every element is itself, in its registered and in its reversed orientation."""
    x = GraphSet([[e] for e in es])
    if x.len() != len(es):
        ctx.fail("distinct edges share a number", len(es), x.len())
    for e in es:
        y = GraphSet([[e]])
        m = list(y)
        if m != [[e]] or GraphSet([[(e[1], e[0])]]) != y or [e] not in x:
            ctx.fail("an edge comes back different", [[e]], m)


def u_reg4(ctx, part, parts):
    K = list(combinations([1, 2, 3, 4], 2))
    cnt = 0
    for mask in range(1, 64):
        es = [K[i] for i in range(6) if mask >> i & 1]
        for o in range(1 << len(es)):
            cnt += 1
            if cnt % parts != part:
                continue
            g = [(e[1], e[0]) if o >> i & 1 else e for i, e in enumerate(es)]
            vs = sorted({v for e in g for v in e})
            for t in TRAV:
                for s in [None] + vs:
                    ctx.case(("reg", g, t, s), len(g) > 1)
                    GraphSet.set_universe(g, traversal=t, source=s)
                    check_registered(ctx, g, t)
                    ctx.states += 1
                    ctx.transitions += 1
                    if s is not None and s not in strip(uni_edges())[0] and t != "greedy":
                        ctx.fail("the traversal does not start at its source", s, uni_edges())
                single_roundtrip(ctx, g)
            if len(g) <= 4:
                for k, p in enumerate(permutations(g)):
                    w = [e + (((i * 3 + k) % 5) - 2.5,) if i % 2 == k % 2 else e for i, e in enumerate(p)]
                    ctx.case(("reg", w, "as-is"), len(g) > 1)
                    GraphSet.set_universe(w, traversal="as-is")
                    check_registered(ctx, w, "as-is")
                    ctx.states += 1
                    ctx.transitions += 1
                    if k % 6 == 0:
                        for t in TRAV:
                            GraphSet.set_universe(w, traversal=t)
                            check_registered(ctx, w, t)


def u_reg5(ctx, part, parts):
    K = list(combinations([1, 2, 3, 4, 5], 2))
    for mask in range(1, 1024):
        if mask % parts != part:
            continue
        es = [K[i] for i in range(10) if mask >> i & 1]
        g = [(e[1], e[0]) if (mask >> (i + 1)) & 1 else e for i, e in enumerate(es)]
        vs = sorted({v for e in g for v in e})
        for t in TRAV:
            for s in [None] + vs:
                ctx.case(("reg", g, t, s), len(g) > 1)
                GraphSet.set_universe(g, t, s)
                check_registered(ctx, g, t)
                ctx.states += 1
                ctx.transitions += 1


def check_di(ctx, given, t):
    got = DiGraphSet.universe()
    if t == "as-is":
        ctx.eq(got, list(given), "DiGraphSet.universe() after as-is")
    elif sorted(map(repr, got)) != sorted(map(repr, given)):
        ctx.fail("DiGraphSet.universe()", given, got)
    es = strip(given)
    if len(es) <= 40 and DiGraphSet({}).len() != 2 ** len(es):
        ctx.fail("number of subgraphs", 2 ** len(es), DiGraphSet({}).len())


def u_regdi(ctx, part, parts, step):
    A3 = list(permutations([1, 2, 3], 2))
    A4 = list(permutations([1, 2, 3, 4], 2))
    cnt = 0
    for A, n in ((A3, 6), (A4, 12)):
        for mask in range(1, 1 << n, 1 if n == 6 else step):
            cnt += 1
            if cnt % parts != part:
                continue
            g = [A[i] for i in range(n) if mask >> i & 1]
            if mask & 1:
                g.reverse()
            vs = sorted({v for e in g for v in e})
            for t in TRAV:
                for s in [None] + vs:
                    ctx.case(("regdi", g, t, s), len(g) > 1)
                    DiGraphSet.set_universe(g, t, s)
                    check_di(ctx, g, t)
                    ctx.states += 1
                    ctx.transitions += 1
            if len(g) <= 4 and n == 6:
                for p in permutations(g):
                    w = [e + (i - 1.5,) if i & 1 else e for i, e in enumerate(p)]
                    ctx.case(("regdi", w, "as-is"), len(g) > 1)
                    DiGraphSet.set_universe(w, traversal="as-is")
                    check_di(ctx, w, "as-is")
                    for i, e in enumerate(g):
                        x = DiGraphSet([[e]])
                        if list(x) != [[e]]:
                            ctx.fail("an arc comes back different", [[e]], list(x))
                    for t in TRAV:
                        DiGraphSet.set_universe(w, traversal=t)
                        check_di(ctx, w, t)


def big_graphs():
    grid = [((r, c), (r, c + 1)) for r in range(9) for c in range(8)] + [((r, c), (r + 1, c)) for r in range(8) for c in range(9)]
    yield "grid", grid
    yield "K15", list(combinations(range(15), 2))
    yield "path300", [(i, i + 1) for i in range(300)]
    yield "star", [(0, i) for i in range(1, 120)]
    yield "star-out", [(i, 200) for i in range(120)]
    yield "matching", [(2 * i, 2 * i + 1) for i in range(80)]
    yield "comps", [e for k in range(12) for e in combinations(range(10 * k, 10 * k + 4), 2)]
    yield "cycle", [(i, (i + 37) % 200) for i in range(200)]
    yield "tree", [((i - 1) // 2, i) for i in range(1, 256)]


def u_big(ctx, k):
    name, g = list(big_graphs())[k]
    vs = sorted({v for e in g for v in e})
    for t in TRAV + ("as-is",):
        for s in (None, vs[0], vs[-1], vs[len(vs) // 2]):
            ctx.case(("big", name, t, s), True)
            GraphSet.set_universe(g, t, s)
            check_registered(ctx, g, t)
            x = GraphSet({}).graph_size(1)
            if x.len() != len(g):
                ctx.fail("one-edge subgraphs", len(g), x.len())
            if GraphSet({}).graph_size(2).len() != len(g) * (len(g) - 1) // 2:
                ctx.fail("two-edge subgraphs", None, None)
            DiGraphSet.set_universe(g, t, s)
            check_di(ctx, g, t)
            if name in ("path300", "star", "matching", "star-out"):
                GraphSet.set_universe(g, t, s)
                if GraphSet.graphs(no_loop=True).len() != 2 ** len(g):
                    ctx.fail("all subgraphs of a forest are forests", 2 ** len(g), GraphSet.graphs(no_loop=True).len())
            if name == "cycle" and t != "as-is":
                if GraphSet.cycles().len() != 1:
                    ctx.fail("cycles of a cycle", 1, GraphSet.cycles().len())


# --- sequences of registrations against a model -------------------------------------------------

class Model:
    def __init__(self):
        self.s = self.g = self.d = self.v = None     # element lists; sets where the order is free

    def key(self):
        return (self.s, self.g, self.d, self.v)


GU = [[(1, 2), (2, 3)], [(1, 2, 5), (3, 2, -1), (1, 3)], [("a", "b"), ("b", "c"), ("c", "d"), ("d", "a")], [(2, 1)], [(1, 2), (3, 4), (5, 6)]]
DU = [[(1, 2), (2, 1)], [(1, 2, 5), (2, 3, -2), (3, 1)], [("a", "b")], []]
SU = [[1, 2], ["x", (1, 2), 3.5, None], [], [5, 4, 3, 2, 1, 0]]
VU = [[1, 2, 3], [(1, 4), (2,), 7], [], ["a", "b", "c", "d", "e"]]


def moves():
    """(name, call, effect on the model or None if the call must raise)"""
    out = []
    for i, u in enumerate(GU):
        for t in ("as-is", "greedy"):
            def eff(m, u=u, t=t):
                m.g = (tuple(u), t == "as-is")
                vs = frozenset(v for e in u for v in e[:2])
                m.v = (vs, False)
            out.append(("GraphSet %d %s" % (i, t), lambda u=u, t=t: GraphSet.set_universe(u, traversal=t), eff))
    for i, u in enumerate(DU):
        def eff(m, u=u):
            m.d = (tuple(u), True)
        out.append(("DiGraphSet %d" % i, lambda u=u: DiGraphSet.set_universe(u, traversal="as-is"), eff))
    for i, u in enumerate(SU):
        def eff(m, u=u):
            m.s = tuple(u)
        out.append(("setset %d" % i, lambda u=u: setset.set_universe(u), eff))
    for i, u in enumerate(VU):
        def eff(m, u=u):
            l = []
            for v in u:
                if isinstance(v, tuple):
                    l.append(v if len(v) == 2 and v[1] != 1 else v[0])
                else:
                    l.append(v)
            m.v = (tuple(l), True)
        out.append(("VertexSetSet %d" % i, lambda u=u: VertexSetSet.set_universe(u), eff))
    bad = [("GraphSet duplicate", lambda: GraphSet.set_universe([(1, 2), (7, 8), (1, 2)])),
           ("GraphSet reversed duplicate", lambda: GraphSet.set_universe([(7, 8), (1, 2), (2, 1)], traversal="as-is")),
           ("GraphSet weighted duplicate", lambda: GraphSet.set_universe([(7, 8, 2.0), (8, 7, 3.0)])),
           ("GraphSet source", lambda: GraphSet.set_universe([(7, 8)], source=1)),
           ("GraphSet source bfs", lambda: GraphSet.set_universe([(7, 8)], "bfs", 9)),
           ("GraphSet traversal", lambda: GraphSet.set_universe([(7, 8)], traversal="depth")),
           ("GraphSet unhashable", lambda: GraphSet.set_universe([(7, 8), ([], 9)])),
           ("GraphSet unhashable as-is", lambda: GraphSet.set_universe([(7, 8), (9, {})], "as-is")),
           ("GraphSet list edges", lambda: GraphSet.set_universe([[7, 8]], "as-is")),
           ("GraphSet short", lambda: GraphSet.set_universe([(7, 8), (9,)], "as-is")),
           ("GraphSet None", lambda: GraphSet.set_universe(None)),
           ("GraphSet empty", lambda: GraphSet.set_universe([])),
           ("GraphSet mixed greedy", lambda: GraphSet.set_universe([(7, 8), ("a", 7)])),
           ("GraphSet number", lambda: GraphSet.set_universe([7, 8])),
           ("GraphSet bad isolated", lambda: Universe.set_universe([(7, 8)], isolated=5)),
           ("GraphSet edge as vertex", lambda: GraphSet.set_universe([(7, 8), (7, (7, 8))], "as-is")),
           ("DiGraphSet duplicate", lambda: DiGraphSet.set_universe([(7, 8), (8, 7), (7, 8)], "as-is")),
           ("DiGraphSet source", lambda: DiGraphSet.set_universe([(7, 8)], source=1)),
           ("DiGraphSet traversal", lambda: DiGraphSet.set_universe([(7, 8)], traversal="x")),
           ("DiGraphSet unhashable", lambda: DiGraphSet.set_universe([(7, 8), ([], 9)], "as-is")),
           ("DiGraphSet short", lambda: DiGraphSet.set_universe([(7, 8, 3), (9,)], "as-is")),
           ("DiGraphSet None", lambda: DiGraphSet.set_universe(None)),
           ("setset duplicate", lambda: setset.set_universe([7, 8, 7])),
           ("setset unhashable", lambda: setset.set_universe([7, []])),
           ("setset None", lambda: setset.set_universe(None)),
           ("VertexSetSet duplicate", lambda: VertexSetSet.set_universe([7, 8, 7])),
           ("VertexSetSet weighted duplicate", lambda: VertexSetSet.set_universe([7, (7, 3)])),
           ("VertexSetSet triple", lambda: VertexSetSet.set_universe([7, (1, 2, 3)])),
           ("VertexSetSet unhashable", lambda: VertexSetSet.set_universe([7, []])),
           ("VertexSetSet number", lambda: VertexSetSet.set_universe(5))]
    out += [(n, f, None) for n, f in bad]
    return out


def compare(ctx, m, hist):
    if m.s is not None:
        ctx.eq(setset.universe(), list(m.s), "setset.universe()")
        if len(setset({})) != 2 ** len(m.s):
            ctx.fail("setset({})", 2 ** len(m.s), len(setset({})))
        for e in m.s:
            if not isinstance(e, tuple):
                if list(setset([set([e])])) != [{e}]:
                    ctx.fail("an element comes back different", {e}, list(setset([set([e])])))
    if m.g is not None:
        u, asis = m.g
        got = GraphSet.universe()
        if (got != list(u)) if asis else sorted(map(repr, got)) != sorted(map(repr, u)):
            ctx.fail("GraphSet.universe()", u, got)
        if GraphSet({}).len() != 2 ** len(u):
            ctx.fail("GraphSet({})", 2 ** len(u), GraphSet({}).len())
        w = {e[:2]: e[2] for e in u if len(e) > 2}
        sums = sorted(sum(w.get(e[:2], 1) for i, e in enumerate(u) if k >> i & 1) for k in range(1 << len(u)))
        it = [sum(w.get(tuple(e), 1) for e in g) for g in GraphSet({}).min_iter()]
        if it != sums:
            ctx.fail("weights of GraphSet", sums, it)
        vs = {v for e in u for v in e[:2]}
        if GraphSet.graphs(no_loop=True).len() != {2: 4, 3: 7 if len(vs) == 3 else 8, 4: 15, 1: 2}[len(u)]:
            ctx.fail("forests", None, GraphSet.graphs(no_loop=True).len())
        ev = Universe.edge_vertex_universe()
        if len(ev) != len(u) + len(vs) or set(ev) != set(strip(u)) | vs:
            ctx.fail("edge_vertex_universe()", None, ev)
        if EdgeVertexSetSet({}).len() != 2 ** len(u):
            ctx.fail("EdgeVertexSetSet({})", 2 ** len(u), EdgeVertexSetSet({}).len())
    if m.d is not None:
        u, asis = m.d
        ctx.eq(DiGraphSet.universe(), list(u), "DiGraphSet.universe()")
        if DiGraphSet({}).len() != 2 ** len(u):
            ctx.fail("DiGraphSet({})", 2 ** len(u), DiGraphSet({}).len())
        w = {e[:2]: e[2] for e in u if len(e) > 2}
        sums = sorted((sum(w.get(e[:2], 1) for i, e in enumerate(u) if k >> i & 1) for k in range(1 << len(u))), reverse=True)
        it = [sum(w.get(tuple(e), 1) for e in g) for g in DiGraphSet({}).max_iter()]
        if it != sums:
            ctx.fail("weights of DiGraphSet", sums, it)
    if m.v is not None:
        u, asis = m.v
        got = VertexSetSet.universe()
        if (got != list(u)) if asis else (len(got) != len(u) or set(got) != set(u)):
            ctx.fail("VertexSetSet.universe()", u, got)
        if VertexSetSet({}).len() != 2 ** len(u):
            ctx.fail("VertexSetSet({})", 2 ** len(u), VertexSetSet({}).len())
        if asis:
            w = {v[0]: v[1] for v in u if isinstance(v, tuple)}
            names = [v[0] if isinstance(v, tuple) else v for v in u]
            sums = sorted(sum(w.get(v, 1) for i, v in enumerate(names) if k >> i & 1) for k in range(1 << len(u)))
            it = [sum(w.get(v, 1) for v in g) for g in VertexSetSet({}).min_iter()]
            if it != sums:
                ctx.fail("weights of VertexSetSet", sums, it)


def u_seq(ctx, first, depth):
    """all sequences of registrations that begin with moves()[first]; one process per branch is
    not needed: set_universe replaces the whole state it owns (checked here as well)."""
    M = moves()

    def rec(hist):
        m = Model()
        for i in hist:
            name, call, eff = M[i]
            if eff is None:
                try:
                    r = call()
                except Exception:
                    continue
                ctx.fail("an invalid universe was accepted", "an exception", (name, r))
            call()
            eff(m)
        ctx.case(("sequence", [M[i][0] for i in hist]), True)
        ctx.states += 1
        ctx.transitions += len(hist)
        ctx.traces += 1
        compare(ctx, m, hist)
        if len(hist) < depth:
            for i in range(len(M)):
                # two refused calls in a row only at the last level
                rec(hist + [i])

    # classes not registered by the sequence keep what an earlier one left: register a base first
    GraphSet.set_universe([(50, 51)])
    DiGraphSet.set_universe([(50, 51)])
    setset.set_universe([50])
    rec([first])


def u_duplicates(ctx, n):
    """universes of up to n edges in which one edge comes twice: every position of the two, every
    form of either (plain, weighted, longer), both orientations, every traversal; refused without
    a trace.  The same lists without the second copy are accepted."""
    base = [(1, 2), (2, 3), (1, 4), (3, 4)]
    forms = (lambda e: e, lambda e: e + (2.0,), lambda e: e + (3, "x"))
    for directed in (False, True):
        cls = DiGraphSet if directed else GraphSet
        cls.set_universe([(7, 8, 4.0), (8, 9)], "as-is")
        before = cls.universe()
        for k in range(1, n):                      # k different edges and a copy of one
            for i in range(k):
                for j in range(i + 1, k + 1):
                    for fi, fj, rest in product(forms, forms, forms[:2]):
                        for turned in (False, True):
                            for t in TRAV + ("as-is",):
                                l = [rest(e) for e in base[:k]]
                                l[i] = fi(base[i])
                                e = base[i][::-1] if turned else base[i]
                                l.insert(j, fj(e))
                                ok = directed and turned
                                ctx.case(("duplicate", directed, l, t), True)
                                ctx.states += 1
                                ctx.transitions += 1
                                try:
                                    cls.set_universe(l, t)
                                except Exception:
                                    if ok:
                                        ctx.fail("opposite arcs were refused", l, t)
                                    ctx.eq(cls.universe(), before, "universe() after a refused one")
                                    continue
                                if not ok:
                                    ctx.fail("a universe with an edge given twice was accepted", l, cls.universe())
                                if sorted(strip(cls.universe())) != sorted(x[:2] for x in l):
                                    ctx.fail("universe()", l, cls.universe())
                                cls.set_universe([(7, 8, 4.0), (8, 9)], "as-is")


# --- presentations --------------------------------------------------------------------------------

class Key:
    """ordered, hashable, clashing hash, no usable repr"""

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return 1

    def __eq__(self, o):
        return isinstance(o, Key) and o.i == self.i

    def __lt__(self, o):
        return self.i < o.i

    def __repr__(self):
        return "Key<%d>, {}" % self.i


NAMES = dict(NAMES15)
NAMES.update({
    "same": lambda n: [("ab%d" % (i % 3), "ab%d" % (i // 2 % 3), i) if i > 2 else ("ab%d" % i, "ab%d" % i, i) for i in range(n)],
    "big": lambda n: [10 ** 18 + i for i in range(n)], "bytes": lambda n: [b"b%d\n" % i for i in range(n)], "nl": lambda n: ["a\n%d b,\t" % i for i in range(n)],
    "key": lambda n: [Key(i) for i in range(n)], "uni": lambda n: ["\u00e9\u4e00%d" % i for i in range(n)],
    "nest": lambda n: [((i, "x"), (i,)) for i in range(n)], "empty": lambda n: ["", "0", "00", "1", "B", "T", ".", " "][:n]})

GRAPHS = {
    "house": (5, [(1, 2), (1, 3), (2, 3), (2, 4), (3, 5), (4, 5)]),
    "K4": (4, [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)]),
    "bull": (5, [(1, 2), (2, 3), (1, 3), (1, 4), (2, 5)]),
    "diamond": (4, [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)]),
    "two": (6, [(1, 2), (2, 3), (1, 3), (4, 5), (5, 6)]),
    "star": (5, [(1, 2), (1, 3), (1, 4), (1, 5)]),
    "path": (5, [(1, 2), (2, 3), (3, 4), (4, 5)]),
    "wheel": (5, [(1, 2), (1, 3), (1, 4), (1, 5), (2, 3), (3, 4), (4, 5), (2, 5)]),
    "K33": (6, [(a, b) for a in (1, 2, 3) for b in (4, 5, 6)]),
}


class P:
    """a presentation: ordered and oriented edges over named vertices"""

    def __init__(self, n, base, order=None, flip=0, names=None, vary=0):
        self.n, self.base, self.vary = n, base, vary
        self.nm = names or list(range(1, n + 1))
        self.back = {v: i + 1 for i, v in enumerate(self.nm)}
        order = order or range(len(base))
        self.edges = []
        for k in order:
            a, b = base[k]
            e = (variant(self.nm[a - 1], k * vary), variant(self.nm[b - 1], (k // 2 + 1) * vary))
            self.edges.append((e[1], e[0]) if flip >> k & 1 else e)
        self.edge = {}
        for e in self.edges:
            a, b = self.back[e[0]], self.back[e[1]]
            self.edge[min(a, b), max(a, b)] = e

    def v(self, *i):
        return [variant(self.nm[x - 1], (x + j) * self.vary) for j, x in enumerate(i)]

    def es(self, member):
        r = []
        for e in getattr(member, "edges", member):
            a, b = self.back[e[0]], self.back[e[1]]
            r.append((min(a, b), max(a, b)))
        return frozenset(r)

    def vs(self, member):
        return frozenset(self.back[v] for v in member)

    def evs(self, member):
        r = []
        for x in member:
            if x in self.back:
                r.append(self.back[x])
            else:
                a, b = self.back[x[0]], self.back[x[1]]
                r.append((min(a, b), max(a, b)))
        return frozenset(r)

    def G(self, fam):
        return GraphSet([[self.edge[e] for e in m] for m in fam])


def fam(f, it):
    l = [f(m) for m in it]
    r = frozenset(l)
    if len(r) != len(l):
        raise AssertionError("a member is delivered twice")
    return r


def queries(p, light):
    """name -> canonical answer"""
    G = GraphSet
    E, V, n = p.edge, p.v, p.n
    w = {e: (a * 5 + b * 3) % 7 - 2 for (a, b), e in E.items()}
    rw = {(e[1], e[0]) if (a + b) % 2 else e: (a * 5 + b * 3) % 7 - 2 for (a, b), e in E.items()}
    pr = {e: ((a * 3 + b) % 5) / 4.0 for (a, b), e in E.items()}
    vw = {p.nm[i]: (i * 3) % 4 + 1 for i in range(n)}
    deg = {p.nm[i]: range(0, 3) for i in range(n)}
    some = [frozenset(k) for i, k in enumerate(c for r in range(4) for c in combinations(sorted(E), r)) if i % 3 == 1]
    Q = [
        ("graphs", lambda: G.graphs()), ("deg", lambda: G.graphs(degree_constraints=deg, num_edges=range(1, 4))),
        ("groups", lambda: G.graphs(vertex_groups=[V(1, 3), V(2)])), ("linear", lambda: G.graphs(linear_constraints=[([e + (x,) for e, x in rw.items()], (0, 3))])),
        ("noloop", lambda: G.graphs(no_loop=True, vertex_groups=[V(1, 2)])), ("trees", lambda: G.trees()), ("tree1", lambda: G.trees(V(2)[0])),
        ("span", lambda: G.trees(is_spanning=True)), ("forests", lambda: G.forests(V(1, 2))), ("cycles", lambda: G.cycles()), ("ham", lambda: G.cycles(is_hamilton=True)),
        ("paths", lambda: G.paths(V(1)[0], V(3)[0])), ("allpaths", lambda: G.paths()), ("match", lambda: G.matchings()), ("perfect", lambda: G.perfect_matchings()),
        ("k_matchings", lambda: G.k_matchings(2)), ("b_matchings", lambda: G.b_matchings({v: i % 3 for i, v in enumerate(p.nm)})),
        ("k_factors", lambda: G.k_factors(2)), ("f_factors", lambda: G.f_factors({v: 1 + i % 2 for i, v in enumerate(p.nm)})),
        ("cliques", lambda: G.cliques(3)), ("biclique", lambda: G.bicliques(1, 1)), ("bip", lambda: G.bipartite_graphs()), ("regular", lambda: G.regular_graphs(2)),
        ("regbip", lambda: G.regular_bipartite_graphs(2)), ("ssub", lambda: G.steiner_subgraphs(V(1, 2, 4))), ("stree", lambda: G.steiner_trees(V(1, 4))),
        ("scyc", lambda: G.steiner_cycles(V(1, 2))), ("spath", lambda: G.steiner_paths(V(1, 2))), ("degdist", lambda: G.degree_distribution_graphs({1: 2, 2: 2}, True)),
        ("degdist2", lambda: G.degree_distribution_graphs({1: 2, 2: G.DegreeDistribution_Any, 3: 0}, False)),
        ("letterP", lambda: G.letter_P_graphs()), ("part", lambda: G.partitions(2, 3)), ("bal", lambda: G.balanced_partitions(vw, lower=2, upper=6)),
        ("balr", lambda: G.balanced_partitions(vw, ratio=2.0, num_comps=2)), ("ind", lambda: G.induced_graphs()), ("wind", lambda: G.weighted_induced_graphs(vw, 3, 6)),
        ("forb", lambda: G.forbidden_induced_subgraphs(G([[E[sorted(E)[0]], E[sorted(E)[1]]]]))), ("chordal", lambda: GraphClass.chordal_graphs()),
        ("cograph", lambda: GraphClass.cographs()), ("cc", lambda: G.connected_components(V(1, 3))), ("family", lambda: p.G(some)),
        ("incl e", lambda: p.G(some).including(E[sorted(E)[1]])), ("excl e", lambda: p.G(some).excluding(E[sorted(E)[1]][::-1])),
        ("incl v", lambda: p.G(some).including(V(2)[0])), ("excl v", lambda: G({}).excluding(V(1)[0])), ("incl g", lambda: p.G(some).including([E[sorted(E)[0]]])),
        ("cost", lambda: p.G(some).cost_le(rw, 1)), ("costge", lambda: G({}).cost_ge(w, 2)), ("max", lambda: p.G(some).maximal()), ("hit", lambda: p.G(some).hitting()),
        ("rem", lambda: p.G(some).remove_some_edge()), ("add", lambda: p.G(some).add_some_edge()), ("exch", lambda: p.G(some).remove_add_some_edges()),
        ("dict", lambda: G({"include": [E[sorted(E)[0]]], "exclude": [E[sorted(E)[2]][::-1]]})),
    ]
    if isinstance(p.nm[0], frozenset):      # a set as an argument denotes a graph
        Q = [q for q in Q if q[0] not in ("incl v", "excl v")]
    if light:
        Q = Q[::light]
    out = {}
    for name, f in Q:
        x = f()
        out[name] = fam(p.es, x)
        if len(x) != len(out[name]):
            out[name] = ("length", len(x), out[name])
    if light:
        return out
    base = list(p.edge.values())
    out["prob"] = round(p.G(some).probability(pr), 12)
    out["rel"] = round(G.reliability({k if (i % 2) else (k[1], k[0]): v for i, (k, v) in enumerate(pr.items())}, V(1, 2, 4)), 12)
    out["min"] = [sum((a * 5 + b * 3) % 7 - 2 for a, b in p.es(m)) for m in p.G(some).min_iter(rw)]
    out["maxi"] = [sum((a * 5 + b * 3) % 7 - 2 for a, b in p.es(m)) for m in p.G(some).max_iter(w)]
    out["rand"] = fam(p.es, p.G(some).rand_iter())
    out["vss"] = fam(p.vs, p.G(some).to_vertexsetset())
    out["evss"] = fam(p.evs, p.G(some).to_evss() if hasattr(GraphSet, "to_evss") else p.G(some).to_edgevertexsetset())
    W = VertexSetSet
    out["indep"] = fam(p.vs, W.independent_sets(p.edges))
    out["dom"] = fam(p.vs, W.dominating_sets(p.edges))
    out["cover"] = fam(p.vs, W.vertex_covers(p.edges))
    out["vcl"] = fam(p.vs, W.cliques(p.edges))
    out["vrem"] = fam(p.vs, W([V(1, 2), V(3), []]).remove_add_some_vertices())
    out["vall"] = fam(p.vs, W({}).graph_size(2))
    out["search"] = (lambda x: [p.es(m) for m in x])(sorted([], key=str))
    return out


def base_answer(n, base, light=0):
    GraphSet.show_messages(False)
    p = P(n, base)
    GraphSet.set_universe(p.edges, traversal="as-is")
    return queries(p, light)


def base_answer2(saved, n, base):
    now = dict(GraphSet.converters)
    GraphSet.converters.update(saved)
    try:
        return base_answer(n, base)
    finally:
        GraphSet.converters.update(now)


def one(ctx, want, p, trav, src, desc, light=0):
    ctx.case(desc, True)
    GraphSet.set_universe(p.edges, traversal=trav, source=src)
    ctx.states += 1
    got = queries(p, light)
    for k in got:
        ctx.transitions += 1
        if got[k] != want[k]:
            ctx.fail("answer of %r depends on the presentation" % k, want[k], got[k])


def u_orders(ctx, g, flips, part, parts, light):
    n, base = GRAPHS[g]
    want = base_answer(n, base, light)
    for k, order in enumerate(permutations(range(len(base)))):
        if k % parts != part:
            continue
        for f in flips:
            flip = (k * 37 + f * 11) % (1 << len(base))
            one(ctx, want, P(n, base, order, flip), "as-is", None, (g, order, flip), light)


def u_trav(ctx, g, part, parts, step, light):
    n, base = GRAPHS[g]
    want = base_answer(n, base, light)
    cnt = 0
    for t in TRAV:
        for s in [None] + list(range(1, n + 1)):
            for flip in range(0, 1 << len(base), step):
                cnt += 1
                if cnt % parts == part:
                    one(ctx, want, P(n, base, None, flip), t, s, (g, t, s, flip), light)


def u_names(ctx, g, kind):
    n, base = GRAPHS[g]
    want = base_answer(n, base)
    nm = NAMES[kind](n)
    for t in TRAV + ("as-is",):
        for rot in range(n):
            names = nm[rot:] + nm[:rot]
            p = P(n, base, None, rot * 5 % (1 << len(base)), names)
            one(ctx, want, p, t, None if rot % 2 else names[rot], (g, t, kind, rot))
            if kind in ("int", "str", "tup", "same", "nest"):
                for vary in (1, 2, 5):
                    p = P(n, base, None, rot * 5 % (1 << len(base)), names, vary)
                    one(ctx, want, p, t, None if rot % 2 else names[rot], (g, t, kind, rot, "equal objects", vary))


def u_networkx(ctx, g):
    import networkx as nx
    n, base = GRAPHS[g]
    want = base_answer(n, base, 1)
    saved = dict(GraphSet.converters)
    try:
        GraphSet.converters["to_graph"] = nx.Graph
        GraphSet.converters["to_edges"] = lambda h: list(h.edges())
        for t in TRAV + ("as-is",):
            for flip in range(0, 1 << len(base), 7):
                ctx.case(("networkx", g, t, flip), True)
                p = P(n, base, None, flip)
                GraphSet.set_universe(nx.Graph(p.edges), traversal=t)
                u = GraphSet.universe()
                if p.es(u.edges) != frozenset(base):
                    ctx.fail("universe()", base, list(u.edges))
                x = GraphSet.trees()
                got = fam(lambda m: p.es(m.edges), x)
                ctx.eq(got, want["trees"], "trees through networkx")
                sub = [nx.Graph([e]) for e in p.edges]
                y = GraphSet(sub)
                if len(y) != len(base) or sub[0] not in y or fam(lambda m: p.es(m.edges), y) != frozenset(frozenset([e]) for e in base):
                    ctx.fail("GraphSet of networkx graphs", None, None)
                z = y.supergraphs(GraphSet([sub[0]]))
                if len(z) != 1 or len(x.including(sub[0])) != sum(1 for m in want["trees"] if next(iter(p.es([p.edges[0]]))) in m):
                    ctx.fail("supergraphs/including of networkx graphs", None, None)
                if fam(lambda m: p.es(m.edges), GraphSet({}) - x) != frozenset(m for m in want["graphs"] if m not in want["trees"]):
                    ctx.fail("complement of trees", None, None)
        GraphSet.converters["to_edges"] = lambda h: list(h.edges()) if isinstance(h, nx.Graph) else h
        want = base_answer2(saved, n, base)
        for t in TRAV + ("as-is",):
            one(ctx, want, P(n, base, None, 5), t, None, ("networkx", g, t))
    finally:
        GraphSet.converters.update(saved)


DG = {"tri": (3, [(1, 2), (2, 1), (2, 3), (3, 1), (1, 3)]), "four": (4, [(1, 2), (2, 3), (3, 4), (4, 1), (1, 3), (3, 1)])}


def dqueries(p, n, arcs):
    back = p
    D = DiGraphSet
    nm = {i: v for v, i in p.items()}
    f = lambda m: frozenset((back[a], back[b]) for a, b in m)
    Q = {"cyc": D.directed_cycles, "ham": D.directed_hamiltonian_cycles, "st": lambda: D.directed_st_paths(nm[1], nm[n]), "st2": lambda: D.directed_st_paths(nm[2], nm[1], True),
         "rf": D.rooted_forests, "rf1": lambda: D.rooted_forests([nm[1]]), "rfs": lambda: D.rooted_forests([nm[1], nm[2]]),
         "rt": lambda: D.rooted_trees(nm[1]), "rts": lambda: D.rooted_trees(nm[2], True),
         "deg": lambda: D.graphs(in_degree_constraints={nm[1]: range(0, 2), nm[2]: [1]}, out_degree_constraints={nm[3]: range(0, 2)}), "all": lambda: D.graphs(),
         "incl": lambda: D({}).including((nm[1], nm[2])), "excl": lambda: D({}).excluding(nm[2]) if not isinstance(nm[2], frozenset) else D({}) - D({}).including(DiGraphSet([[e] for e in DiGraphSet.universe() if nm[2] in e])), "cost": lambda: D({}).cost_le({(nm[a], nm[b]): a * 2 - b for a, b in arcs}, 1),
         "some": lambda: D({"include": [(nm[arcs[0][0]], nm[arcs[0][1]])]}).remove_add_some_edges()}
    out = {}
    for k, q in Q.items():
        x = q()
        out[k] = fam(f, x)
        if len(x) != len(out[k]):
            raise AssertionError("length")
    out["prob"] = round(D.directed_cycles().probability({(nm[a], nm[b]): (a + 3 * b) % 5 / 4.0 for a, b in arcs}), 12)
    return out


def u_digraph(ctx, g, part, parts):
    n, arcs = DG[g]
    want = None
    cnt = 0
    pres = [("as-is", None, o, "int") for o in permutations(range(len(arcs)))][::1 if len(arcs) < 6 else 4]
    pres += [(t, s, range(len(arcs)), k) for t in TRAV for s in [None] + list(range(n)) for k in NAMES]
    pres = [("as-is", None, range(len(arcs)), "int")] + pres
    for i, (t, s, order, kind) in enumerate(pres):
        if i and i % parts != part:
            continue
        nm = NAMES[kind](n)
        if kind != "int":
            nm = nm[s or 0:] + nm[:s or 0]
        back = {v: i + 1 for i, v in enumerate(nm)}
        ed = [(nm[arcs[k][0] - 1], nm[arcs[k][1] - 1]) for k in order]
        ctx.case(("digraph", g, t, s, list(order), kind), True)
        DiGraphSet.set_universe(ed, traversal=t, source=None if s is None else nm[s])
        check_di(ctx, ed, t)
        got = dqueries(back, n, arcs)
        ctx.states += 1
        if want is None:
            want = got
        for k in want:
            ctx.transitions += 1
            if want[k] != got[k]:
                ctx.fail("answer of %r depends on the presentation" % k, want[k], got[k])


def u_weights(ctx):
    """weights given as third entries, through weights=, or in reverse orientation are the same weights."""
    n, base = GRAPHS["diamond"]
    w = {e: (3 * e[0] + e[1]) % 5 - 2 for e in base}
    vw = {i: 5 - 2 * i for i in range(1, 5)}
    ref = sorted(sum(w[e] for i, e in enumerate(base) if k >> i & 1) for k in range(32))
    vref = sorted(sum(vw[i + 1] for i in range(4) if k >> i & 1) for k in range(16))
    for flip in range(32):
        p = P(n, base, None, flip)
        for t in TRAV + ("as-is",):
            for how in ("third", "weights", "both"):
                ctx.case(("weights", flip, t, how), True)
                inv = {v: k for k, v in p.edge.items()}
                if how == "third":
                    u, ws = [e + (w[inv[e]],) for e in p.edges], dict(vw)
                elif how == "weights":
                    u, ws = p.edges, dict(vw, **{}) | {e: w[inv[e]] for e in p.edges}
                else:
                    u, ws = [e + (w[inv[e]],) for e in p.edges], dict(vw) | {e: 99 for e in p.edges}
                Universe.set_universe(u, traversal=t, weights=ws)
                full = [e + (w[inv[e]],) for e in p.edges]
                got = GraphSet.universe()
                if (got != full) if t == "as-is" else sorted(got) != sorted(full):
                    ctx.fail("universe() with weights", full, got)
                vu = sorted(VertexSetSet.universe(), key=lambda v: v if isinstance(v, int) else v[0])
                ctx.eq(vu, [(i, vw[i]) if vw[i] != 1 else i for i in range(1, 5)], "vertex universe with weights")
                ctx.eq([sum(w[inv[e]] for e in m) for m in GraphSet({}).min_iter()], ref, "min_iter with the universe's weights")
                ctx.eq([sum(w[inv[e]] for e in m) for m in GraphSet({}).max_iter()], ref[::-1], "max_iter with the universe's weights")
                ctx.eq([sum(vw[v] for v in m) for m in VertexSetSet({}).min_iter()], vref, "vertex min_iter with the universe's weights")
                ctx.eq([sum(vw[v] for v in m) for m in VertexSetSet({}).max_iter()], vref[::-1], "vertex max_iter with the universe's weights")
                cost = {e: int(w[inv[e]]) for e in p.edges}
                ctx.eq(len(GraphSet({}).cost_le(cost, 0)), sum(1 for x in ref if x <= 0), "cost_le over the universe")


def units(tier):
    th = tier == "thorough"
    us = [Unit("reg4/%d" % i, u_reg4, (i, 8), seq=True) for i in range(8)]
    us += [Unit("reg5/%d" % i, u_reg5, (i, 8), seq=True) for i in range(8)]
    us += [Unit("regdi/%d" % i, u_regdi, (i, 8, 1 if th else 7), seq=True) for i in range(8)]
    us += [Unit("big/%d" % i, u_big, (i,)) for i in range(9)]
    us += [Unit("seq/%d" % i, u_seq, (i, 4 if th else 3), seq=True) for i in range(len(moves()))]
    for g in ("star", "path"):
        us.append(Unit("orders/" + g, u_orders, (g, range(4), 0, 1, 0), seq=True))
    for g in ("bull", "diamond", "two"):
        us += [Unit("orders/%s/%d" % (g, i), u_orders, (g, range(8 if th else 2), i, 2, 0), seq=True) for i in range(2)]
    us += [Unit("orders/K4/%d" % i, u_orders, ("K4", range(4) if th else [0], i, 8, 0 if th else 3), seq=True) for i in range(8)]
    for g in ("K4", "house", "diamond", "two", "bull"):
        us += [Unit("trav/%s/%d" % (g, i), u_trav, (g, i, 2, 1 if th else 3, 0), seq=True) for i in range(2)]
    us += [Unit("trav/wheel/%d" % i, u_trav, ("wheel", i, 4, 1 if th else 37, 0), seq=True) for i in range(4)]
    if th:
        us += [Unit("trav/K33/%d" % i, u_trav, ("K33", i, 8, 3, 0), seq=True) for i in range(8)]
    for k in NAMES:
        us += [Unit("names/%s/%s" % (g, k), u_names, (g, k), seq=True) for g in ("house", "two")]
    us += [Unit("digraph/%s/%d" % (g, i), u_digraph, (g, i, 4), seq=True) for g in DG for i in range(4)]
    us += [Unit("networkx/" + g, u_networkx, (g,), seq=True) for g in ("diamond", "bull", "two")]
    us.append(Unit("weights", u_weights, seq=True))
    us.append(Unit("duplicates", u_duplicates, (4,), seq=True))
    us.append(Unit("orders-parallel", u_orders, ("bull", [1], 3, 5, 0), threads=4))
    return us
