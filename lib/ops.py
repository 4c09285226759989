"""The operation alphabet shared by the history checks: every entry calls the
public API on a fixed world and returns a canonical Python value."""
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet, GraphClass
from graphillion.edgevertex_setset import EdgeVertexSetSet

SN = 5
EDGES = [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (4, 5)]
ARCS = [(1, 2), (2, 1), (2, 3), (3, 1), (3, 4), (4, 1)]
VERTS = [1, 2, 3, 4, 5]
# families as lists of index tuples
FAMS = {
    "A": [(), (0,), (1, 2), (0, 3), (0, 1, 3), (4,), (2, 3, 4)],
    "B": [(0,), (1,), (0, 1), (2, 4), (1, 2, 3)],
    "C": [(3,), (0, 3), (1, 3), (0, 1, 3), (1, 2, 3, 4), (0, 1, 2, 3, 4)],
}


def canon(x):
    if isinstance(x, (bool, int, float, str, type(None))):
        return x
    if isinstance(x, (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet)) or hasattr(x, "rand_iter") or type(x).__name__ == "setset_base":
        l = [frozenset(s) for s in x]
        f = frozenset(l)
        if len(f) != len(l) or len(x) != len(l):
            raise AssertionError("iteration and len() disagree: %r %r" % (len(l), len(x)))
        return f
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    if isinstance(x, (list, tuple)):
        return tuple(canon(y) for y in x)
    return frozenset(frozenset(s) for s in x)          # an iterator of members


class World:
    """Universes of all classes and operand objects made on demand."""

    def __init__(self):
        GraphSet.show_messages(False)
        self.register()

    def register(self):
        setset.set_universe(range(1, SN + 1))
        GraphSet.set_universe(EDGES, traversal="as-is")
        DiGraphSet.set_universe(ARCS, traversal="as-is")

    def s(self, name):
        return setset([set(i + 1 for i in m) for m in FAMS[name]])

    def g(self, name):
        return GraphSet([[EDGES[i] for i in m] for m in FAMS[name]])

    def d(self, name):
        return DiGraphSet([[ARCS[i] for i in m] for m in FAMS[name]])

    def v(self, name):
        return VertexSetSet([[VERTS[i] for i in m] for m in FAMS[name]])

    def e(self, name):
        return self.g(name).to_edgevertexsetset()


def upd(fn):
    def f(x, *a):
        fn(x, *a)
        return x
    return f


def algebra(kind, elems):
    """(name, operands, fn) for the calls all classes share."""
    evs = kind == "e"
    ops = []

    def add(name, operands, fn):
        ops.append((kind + "." + name, kind, operands, fn))
    e0, e2 = elems[0], elems[2]
    two = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y,
           "join": lambda x, y: x.join(y), "meet": lambda x, y: x.meet(y)}
    cost = {e: i * i % 7 - 2 for i, e in enumerate(elems)}
    prob = {e: (0.25, 0.5, 0.75, 0.125, 0.0, 1.0, 0.5)[i % 7] for i, e in enumerate(elems)}
    if kind == "s":
        nm = ("subsets", "supersets", "non_subsets", "non_supersets", "set_size", "remove_some_element", "add_some_element", "remove_add_some_elements")
    elif kind == "v":
        nm = ("subgraphs", "supergraphs", "non_subgraphs", "non_supergraphs", "graph_size", "remove_some_vertex", "add_some_vertex", "remove_add_some_vertices")
    else:
        nm = ("subgraphs", "supergraphs", "non_subgraphs", "non_supergraphs", "graph_size", "remove_some_edge", "add_some_edge", "remove_add_some_edges")
    for n in nm[:4]:
        two[n] = lambda x, y, n=n: getattr(x, n)(y)
    if not evs:
        two.update({"/": lambda x, y: x / y, "%": lambda x, y: x % y, "issub": lambda x, y: (x <= y, x < y, x >= y, x > y, x == y, x != y, x.isdisjoint(y))})
    two["|="] = upd(lambda x, y: x.update(y))
    two["-="] = upd(lambda x, y: x.difference_update(y))
    for n, fn in two.items():
        for a, b in (("A", "B"), ("C", "A"), ("B", "C")):
            add("%s(%s,%s)" % (n, a, b), (a, b), fn)
    one = {"minimal": lambda x: x.minimal(), "maximal": lambda x: x.maximal(), "smaller": lambda x: x.smaller(2), "larger": lambda x: x.larger(1),
           "size": lambda x: getattr(x, nm[4])(2), "iter": lambda x: x, "len": lambda x: (len(x), x.len(), bool(x)),
           "rand_iter": lambda x: x.rand_iter(), "min_iter": lambda x: x.min_iter(), "max_iter": lambda x: x.max_iter(),
           "probability": lambda x: x.probability(prob), "cost_le": lambda x: x.cost_le(cost, 1), "in": lambda x: (e0 in x, e2 in x, set() in x, {e0} in x),
           "copy": lambda x: x.copy(), "add": upd(lambda x: x.add([e0, e2] if kind != "s" else {e0, e2})),
           "discard": upd(lambda x: x.discard([e0] if kind != "s" else {e0})),
           "dumps": lambda x: type(x).loads(x.dumps()), "min_order": lambda x: [sum(cost[e] for e in s) for s in x.min_iter(cost)]}
    if not evs:
        one.update({"hitting": lambda x: x.hitting(), "~": lambda x: ~x, "rem": lambda x: getattr(x, nm[5])(), "addsome": lambda x: getattr(x, nm[6])(),
                    "remadd": lambda x: getattr(x, nm[7])(), "flip": upd(lambda x: x.flip(e0)), "graft": upd(lambda x: x.add(e2)),
                    "prune": upd(lambda x: x.discard(e2)), "sup_e": lambda x: (x.supersets if kind == "s" else x.including)(e0),
                    "nonsup_e": lambda x: (x.non_supersets if kind == "s" else x.excluding)(e0)})
    if kind != "s":
        one["cost_ge"] = lambda x: x.cost_ge(cost, 1)
        one["cost_eq"] = lambda x: x.cost_eq(cost, 1)
    for n, fn in one.items():
        for a in ("A", "C"):
            add("%s(%s)" % (n, a), (a,), fn)
    return ops


def enums():
    G, D, V = GraphSet, DiGraphSet, VertexSetSet
    R = {i: range(0, 3) for i in VERTS}
    dd = {1: 2, 2: 2}
    L = [
        ("graphs()", lambda: G.graphs()),
        ("graphs(vg)", lambda: G.graphs(vertex_groups=[[1, 5], [3]])),
        ("graphs(deg)", lambda: G.graphs(degree_constraints=R)),
        ("graphs(edges)", lambda: G.graphs(num_edges=range(2, 4), no_loop=True)),
        ("graphs(rel)", lambda: G.graphs(linear_constraints=[({e: i - 2 for i, e in enumerate(EDGES)}, (0, 3))])),
        ("components", lambda: G.connected_components([1, 4])),
        ("cliques", lambda: G.cliques(3)), ("bicliques", lambda: G.bicliques(2, 2)),
        ("trees", lambda: G.trees()), ("trees(1)", lambda: G.trees(1)), ("sptrees", lambda: G.trees(is_spanning=True)),
        ("forests", lambda: G.forests([1, 4])), ("cycles", lambda: G.cycles()), ("hpaths", lambda: G.paths(1, 5, is_hamilton=True)),
        ("paths", lambda: G.paths(1, 5)), ("paths()", lambda: G.paths()), ("matchings", lambda: G.matchings()), ("pm", lambda: G.perfect_matchings()),
        ("k_matchings", lambda: G.k_matchings(2)), ("k_factors", lambda: G.k_factors(2)), ("regular", lambda: G.regular_graphs(2)),
        ("bipartite", lambda: G.bipartite_graphs()), ("regbip", lambda: G.regular_bipartite_graphs(1, is_connected=False)),
        ("steiner_sub", lambda: G.steiner_subgraphs([1, 4])), ("steiner_tree", lambda: G.steiner_trees([1, 4])),
        ("steiner_cycle", lambda: G.steiner_cycles([1, 4])), ("steiner_path", lambda: G.steiner_paths([1, 4])),
        ("degdist", lambda: G.degree_distribution_graphs({1: 2, 2: 2}, True)), ("degdist_any", lambda: G.degree_distribution_graphs({1: G.DegreeDistribution_Any, 2: 1}, False)),
        ("letterP", lambda: G.letter_P_graphs()), ("partitions", lambda: G.partitions(2, 3)),
        ("balanced", lambda: G.balanced_partitions({v: v for v in VERTS}, lower=3, upper=9)),
        ("induced", lambda: G.induced_graphs()), ("winduced", lambda: G.weighted_induced_graphs({v: v for v in VERTS}, 3, 9)),
        ("forbidden", lambda: G.forbidden_induced_subgraphs(G([[(1, 2), (2, 3)], [(1, 2), (1, 3), (2, 3)]]))),
        ("chordal", lambda: GraphClass.chordal_graphs()), ("cographs", lambda: GraphClass.cographs()), ("reliability", lambda: round(G.reliability({e: 0.5 for e in EDGES}, [1, 4, 5]), 12)),
        ("graphset arg", lambda: G.trees(graphset=G.graphs(num_edges=range(2, 5)))),
        ("graphset arg 2", lambda: G.paths(1, 4).cycles if False else G.cycles(graphset=G({}).larger(2))),
        ("regular arg", lambda: G.regular_graphs(graphset=G({}).smaller(5))),
        ("degdist arg", lambda: G.degree_distribution_graphs(dd, True, graphset=G({}).larger(1))),
        ("including v", lambda: G.trees().including(5)), ("excluding v", lambda: G.matchings().excluding(2)),
        ("to_vss", lambda: G.trees().to_vertexsetset()), ("to_evss", lambda: G.cycles().to_edgevertexsetset()),
        ("evss rel", lambda: EdgeVertexSetSet({}).including(1)),
        ("dcycles", lambda: D.directed_cycles()), ("dhcycles", lambda: D.directed_hamiltonian_cycles()), ("dpaths", lambda: D.directed_st_paths(1, 4)),
        ("rforests", lambda: D.rooted_forests()), ("rforests(r)", lambda: D.rooted_forests([1])), ("rtrees", lambda: D.rooted_trees(1)),
        ("dgraphs", lambda: D.graphs(in_degree_constraints={1: range(1, 3)}, out_degree_constraints={2: range(0, 2)})),
        ("independent", lambda: V.independent_sets(EDGES)), ("independent2", lambda: V.independent_sets(EDGES, 2)),
        ("dominating", lambda: V.dominating_sets(EDGES)), ("covers", lambda: V.vertex_covers(EDGES)), ("vcliques", lambda: V.cliques(EDGES)),
        ("s{}", lambda: setset({"include": {1}, "exclude": {4}})), ("v{}", lambda: V({"include": [1]})),
    ]
    return [("enum." + n, None, (), lambda fn=fn: fn()) for n, fn in L]


def alphabet():
    return (algebra("s", list(range(1, SN + 1))) + algebra("g", EDGES) + algebra("d", ARCS) + algebra("v", VERTS) + algebra("e", EDGES + VERTS) + enums())


def run(world, op, operands=None):
    name, kind, names, fn = op
    if operands is None:
        operands = make(world, op)
    return canon(fn(*operands))


def make(world, op):
    name, kind, names, fn = op
    return [getattr(world, kind)(n) for n in names] if kind else []
