"""Universes of more than 2^15 vertices: n separate edges (2i, 2i+1).

Every search answers in closed form there; only the number of members is compared,
as the diagram library walks no diagram deeper than 8192 levels (see DESIGN.md)."""
from graphillion import GraphSet, DiGraphSet
from vrun import Unit

N = 17000
OPS = {
    "C08": {
        "degree": (lambda G, n: G.graphs(degree_constraints={2 * n - 1: 1}), lambda n: 1 << n - 1),
        "groups": (lambda G, n: G.graphs(vertex_groups=[[2 * n - 2, 2 * n - 1]]), lambda n: 1),
        "groups-2": (lambda G, n: G.graphs(vertex_groups=[[0, 1], [2 * n - 2, 2 * n - 1]]), lambda n: 1),
        "no-loop": (lambda G, n: G.graphs(no_loop=True), lambda n: 1 << n),
        "edges": (lambda G, n: G.graphs(num_edges=range(1, 3)), lambda n: n + n * (n - 1) // 2),
        "linear": (lambda G, n: G.graphs(linear_constraints=[([(2 * n - 2, 2 * n - 1)], (0, 0))]), lambda n: 1 << n - 1),
        "components": (lambda G, n: G.connected_components([2 * n - 2, 2 * n - 1]), lambda n: 1),
    },
    "C09": {
        "paths": (lambda G, n: G.paths(2 * n - 2, 2 * n - 1), lambda n: 1),
        "paths-none": (lambda G, n: G.paths(2 * n - 4, 2 * n - 1), lambda n: 0),
        "cycles": (lambda G, n: G.cycles(), lambda n: 0),
        "hamilton": (lambda G, n: G.cycles(is_hamilton=True), lambda n: 0),
        "tree": (lambda G, n: G.trees(2 * n - 1), lambda n: 2),
        "trees": (lambda G, n: G.trees(), lambda n: n),
        "spanning": (lambda G, n: G.trees(is_spanning=True), lambda n: 0),
        "forests": (lambda G, n: G.forests([2 * n - 2, 0]), lambda n: 4),
        "spanning-forests": (lambda G, n: G.forests([2 * i for i in range(n)], is_spanning=True), lambda n: 1),
        "steiner-trees": (lambda G, n: G.steiner_trees([2 * n - 2, 2 * n - 1]), lambda n: 1),
        "steiner-cycles": (lambda G, n: G.steiner_cycles([2 * n - 2, 2 * n - 1]), lambda n: 0),
        "steiner-subgraphs": (lambda G, n: G.steiner_subgraphs([2 * n - 2, 2 * n - 1]), lambda n: 1),
    },
    "C10": {
        "matchings": (lambda G, n: G.matchings(), lambda n: 1 << n),
        "perfect": (lambda G, n: G.perfect_matchings(), lambda n: 1),
        "cliques": (lambda G, n: G.cliques(2), lambda n: n),
        "factors": (lambda G, n: G.k_factors(1), lambda n: 1),
        "f-factors": (lambda G, n: G.f_factors({v: v < 2 * n - 2 for v in range(2 * n)}), lambda n: 1),
        "regular": (lambda G, n: G.regular_graphs(1), lambda n: n),
        "letter-p": (lambda G, n: G.letter_P_graphs(), lambda n: 0),
        "distribution": (lambda G, n: G.degree_distribution_graphs({0: 2 * n - 2, 1: 2}, True), lambda n: n),
    },
    "C11": {
        "partitions": (lambda G, n: G.partitions(n, n), lambda n: 1),
    },
    "C14": {
        "forests": (lambda D, n: D.rooted_forests(), lambda n: 1 << n),
        "forest": (lambda D, n: D.rooted_forests([2 * n - 2]), lambda n: 1),
        "forest-none": (lambda D, n: D.rooted_forests([2 * n - 1]), lambda n: 0),
        "tree": (lambda D, n: D.rooted_trees(2 * n - 2), lambda n: 2),
        "tree-none": (lambda D, n: D.rooted_trees(2 * n - 1), lambda n: 1),
        "cycles": (lambda D, n: D.directed_cycles(), lambda n: 0),
        "hamilton": (lambda D, n: D.directed_hamiltonian_cycles(), lambda n: 0),
        "path": (lambda D, n: D.directed_st_paths(2 * n - 2, 2 * n - 1), lambda n: 1),
        "path-back": (lambda D, n: D.directed_st_paths(2 * n - 1, 2 * n - 2), lambda n: 0),
    },
}


def u_large(ctx, prop, op, n):
    f, expected = OPS[prop][op]
    C = DiGraphSet if prop == "C14" else GraphSet
    for k in (1, 2, 3, n):   # the closed form itself, where other units decide the answer
        C.set_universe([(2 * i, 2 * i + 1) for i in range(k)], traversal="as-is")
        if k < 2 and op in ("groups-2", "forests", "paths-none", "spanning"):
            continue
        ctx.case(("separate edges", k, op), True)
        ctx.eq(f(C, k).len(), expected(k), "number of members")


def units(prop, tier):
    us = [Unit("large/" + op, u_large, (prop, op, N), seq=i % 2 == 1, timeout=400) for i, op in enumerate(OPS[prop])]
    if tier == "thorough" and prop == "C14":
        us += [Unit("larger/" + op, u_large, (prop, op, 32700), seq=True, timeout=2000) for op in OPS[prop]]
    return us
