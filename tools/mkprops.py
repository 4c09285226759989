#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})


PY = "graphillion/"
C = "src/graphillion/"
ALLPY = [PY + f for f in ("setset_base.py", "setset.py", "graphset.py", "digraphset.py", "vertex_setset.py",
                          "edgevertex_setset.py")]

p("C01", "Set-family algebra returns exactly the family its definition gives",
  "For every family over a universe, each non-updating operation of setset, GraphSet, DiGraphSet, VertexSetSet and "
  "EdgeVertexSetSet (union, intersection, difference, symmetric difference, quotient, remainder, join, meet, sub/superset "
  "selections and their negations, including/excluding/included, complement, inversion, minimal, maximal, blocking/hitting, "
  "smaller/larger/size, flip, the include/exclude constructor and all comparisons) yields exactly the family its "
  "set-theoretic definition gives. Operands are never changed, and two objects compare equal exactly when they hold the same sets.",
  ["inputs"], "all pairs (and argument triples of n-ary forms) of families over the universe, all elements, all sizes",
  "The tests apply each operation to one or two hand-written families; a recursion that is wrong only when an operand "
  "contains the empty set, shares structure, or skips a level is not sampled.",
  [C + "zdd.cc", C + "setset.cc", "src/SAPPOROBDD/ZBDD.cc", "src/pygraphillion.cc"] + ALLPY,
  [("decision-diagram recursions", C + "zdd.cc"), ("ZBDD operators", "src/SAPPOROBDD/ZBDD.cc"),
   ("object/edge translation", PY + "setset_base.py")],
  ["return value of every operation", "members listed by iteration", "==/</<= results"])

p("C02", "Update histories behave like a plain set of sets",
  "After any sequence of updating calls (add, remove, discard, pop, clear, flip, update and the in-place operators, with "
  "member sets, single elements or other families as arguments) an object holds exactly the family that the same calls "
  "give on a plain Python set of sets, and each call returns or raises what its documentation says (KeyError for a missing "
  "member, None otherwise, pop returns a former member and removes exactly it). Copies and other objects never change "
  "when one object is updated.",
  ["histories"], "all call sequences up to a depth over the call alphabet, from every starting family of a small universe",
  "Tests run one fixed history per method; aliasing between objects and state left over by an earlier update need many orders.",
  [C + "setset.cc", "src/pygraphillion.cc"] + ALLPY,
  [("setset::add/remove/flip", C + "setset.cc"), ("in-place number protocol", "src/pygraphillion.cc")],
  ["members after every call", "return value / exception of every call"])

p("C03", "Iteration, length, membership and choice agree with the family",
  "Iterating an object yields every member exactly once and nothing else, len() and bool() agree with it exactly (even when the count exceeds "
  "64 bits, via obj.len()), `in` is true exactly for members, and rand_iter, choice and pop only ever deliver members, rand_iter each exactly once and, given uniform random numbers, every remaining member with the same probability. "
  "min_iter and max_iter deliver every member exactly once in non-decreasing, respectively non-increasing, total weight for every assignment of weights.",
  ["inputs", "histories"], "all families over small universes, all weight assignments from a small alphabet, all pseudo-random states reached",
  "Iteration order, ties, negative or missing weights and very large counts are each touched by one example in the tests.",
  [C + "setset.cc", C + "zdd.cc", "src/pygraphillion.cc", "src/SAPPOROBDD/ZBDD.cc"] + ALLPY,
  [("iterator, random_iterator, weighted_iterator", C + "setset.cc"), ("choose/choose_random/choose_best", C + "zdd.cc"),
   ("arbitrary-precision count", "src/SAPPOROBDD/bddc.cc")],
  ["sequence delivered by each iterator", "len/obj.len()", "in"])

p("C04", "Cost filters keep exactly the members whose cost meets the bound",
  "cost_le, cost_ge and cost_eq return exactly the members whose total cost is at most, at least, or equal to the bound, for every "
  "family, every assignment of integer costs (zero and negative ones included) to the elements and every integer bound. The answer does not depend on which "
  "filters, with which costs and bounds, were evaluated before.",
  ["inputs", "histories"], "all families of a small universe, all cost vectors from an alphabet with ties, zero and negatives, all bounds, all orders of calls",
  "The interval-memoised recursion reuses answers between bounds; tests use a handful of bounds on one family.",
  ["src/SAPPOROBDD/BDDCT.cc", C + "setset.cc", "src/pygraphillion.cc"] + ALLPY,
  [("BDDCT::ZBDD_CostLE interval cache", "src/SAPPOROBDD/BDDCT.cc"), ("convert_weight", C + "convert_weight_list.h")],
  ["members of the returned family"], [("_zmap", "accepted-worst/rejected-best intervals per node", "src/SAPPOROBDD/BDDCT.cc")])

p("C05", "Answers do not depend on what the process did before",
  "The result of an operation depends only on its arguments and the current universe: not on which operations ran before, on earlier universes of any "
  "kind or size, on objects alive or already freed, nor on when the node table was enlarged or garbage collected.",
  ["histories", "fault_sequences"], "all short sequences of operations mixed with universe changes, object destruction and a refused node-table "
  "growth (hence a garbage collection) at every possible allocation",
  "Static caches, level renumbering and node-id reuse only show up after particular earlier calls or when the node table cannot grow; tests start from fresh state and never exhaust it.",
  [C + "zdd.cc", C + "reconf.cc", C + "setset.cc", "src/SAPPOROBDD/bddc.cc", PY + "universe.py"],
  [("static caches keyed by node id", C + "zdd.cc"), ("operation cache and GC", "src/SAPPOROBDD/bddc.cc"),
   ("new_elems/num_elems", C + "zdd.cc")],
  ["members of results after each history"],
  [("static cache maps", "memo keyed by raw node ids", C + "zdd.cc"), ("Cache[]", "operation cache", "src/SAPPOROBDD/bddc.cc")])

p("C06", "dump/load round-trips every family, and damaged dumps are refused",
  "load(dump(x)) and loads(dumps(x)), and copying or pickling-style reuse through text, give a family equal to x for every family, in the same or a new process and also after the universe was registered again in the same order. "
  "Input that is not a complete well-formed dump raises an exception instead of delivering a family.",
  ["inputs", "crash_points"], "all families over a small universe; every prefix of a dump (a write cut short) and every single-line loss",
  "Tests round-trip one family through one file and never truncate it.",
  [C + "zdd.cc", C + "setset.cc", "src/pygraphillion.cc", PY + "setset.py", PY + "graphset.py", PY + "digraphset.py", PY + "vertex_setset.py", PY + "edgevertex_setset.py"],
  [("dump/load", C + "zdd.cc"), ("setset_load/loads", "src/pygraphillion.cc")], ["members of the loaded object", "exception"])

p("C07", "Universe registration keeps every edge once and answers ignore its order",
  "set_universe registers exactly the given edges (or vertices), each once, for every traversal, source, edge order, labelling and weights, universe() returns them, and invalid universes (duplicates, foreign sources, non-hashables) are refused with an exception and leave the old universe in place. "
  "Families, counts and weights computed afterwards are the same, up to renaming, for every traversal, edge order, edge orientation and vertex naming.",
  ["inputs", "configurations"], "all ordered edge lists of small graphs x all traversals and sources x several vertex types",
  "Tests pin the traversal of one grid graph.",
  [PY + "universe.py", PY + "graphset.py", PY + "digraphset.py", PY + "vertex_setset.py", PY + "setset_base.py"],
  [("_traverse", PY + "universe.py"), ("ObjectTable", PY + "setset_base.py")], ["universe()", "results of enumerations"])

p("C08", "GraphSet.graphs returns exactly the subgraphs that meet the constraints",
  "GraphSet.graphs, and a connected_components query, returns exactly the subgraphs of the universe that satisfy every given constraint on vertex groups "
  "(connected inside a group, separated between groups, other vertices unused components allowed as documented), degrees, number of edges, absence of cycles and linear edge-weight sums, in every combination, and nothing else.",
  ["inputs"], "all small universes in all edge orders, all combinations of constraints from small domains",
  "The frontier state depends on edge order and constraint interaction; tests use one 3x3 grid or smaller with about ten constraint sets.",
  [C + "graphset.cc", "src/subsetting/spec/FrontierBasedSearch.hpp", "src/subsetting/spec/DegreeConstraint.hpp", "src/subsetting/spec/SizeConstraint.hpp",
   "src/subsetting/spec/LinearConstraints.hpp", "src/pygraphillion.cc", PY + "graphset.py"],
  [("FrontierBasedSearch", "src/subsetting/spec/FrontierBasedSearch.hpp"), ("SearchGraphs", C + "graphset.cc")], ["members of the returned GraphSet"])

p("C09", "Path, cycle, tree, forest, connectivity and Steiner families are exact",
  "GraphSet.paths, cycles, trees, forests, connected_components, steiner_subgraphs, steiner_trees, steiner_cycles, steiner_paths and their Hamiltonian or spanning variants contain exactly the subgraphs of the universe with the named structure, no more and no fewer.",
  ["inputs"], "all labelled universes up to a size in several edge orders, all terminals, roots and flags",
  "Tests compare a few counts or members on one small universe each.",
  [PY + "graphset.py", C + "graphset.cc", "src/subsetting/spec/FrontierBasedSearch.hpp", "src/subsetting/spec/PathZdd.hpp"],
  [("named constructors", PY + "graphset.py"), ("FrontierBasedSearch", "src/subsetting/spec/FrontierBasedSearch.hpp")], ["members of the returned GraphSet"])

p("C10", "Clique, matching, factor, degree and bipartite families are exact",
  "GraphSet.cliques, bicliques, matchings, perfect_matchings, k_matchings, b_matchings, k_factors, f_factors, regular_graphs, bipartite_graphs, regular_bipartite_graphs, degree_distribution_graphs and letter_P_graphs contain exactly the subgraphs of the universe with the named structure.",
  ["inputs"], "all labelled universes up to a size in several edge orders, all parameters in range",
  "Tests compare a few counts on one small universe each.",
  [PY + "graphset.py", C + "regular", C + "degree_distribution", C + "odd_edges_subgraphs"],
  [("regular/bipartite frontier specs", C + "regular"), ("degree distribution spec", C + "degree_distribution")], ["members of the returned GraphSet"])

p("C11", "Partition families are exact",
  "GraphSet.partitions returns exactly the edge sets that are the union of the subgraphs induced by a partition of all vertices into connected parts with the number of parts in the requested range, "
  "and balanced_partitions exactly those whose part weights also satisfy the ratio, lower and upper bounds and part count, for every weight assignment.",
  ["inputs"], "all labelled universes up to a size, all vertex weights from an alphabet, all bounds",
  "Tests check one universe.",
  [C + "partition", PY + "graphset.py", C + "graphset.cc"], [("partition specs", C + "partition")], ["members of the returned GraphSet"])

p("C12", "Induced, weighted-induced, forbidden-induced and chordal families are exact",
  "GraphSet.induced_graphs, weighted_induced_graphs, forbidden_induced_subgraphs and chordal_graphs contain exactly the edge sets of the universe that are a connected induced subgraph, one whose vertex weights meet the bounds, one in which no forbidden graph occurs as an induced subgraph, and a chordal graph respectively.",
  ["inputs"], "all labelled universes up to a size, all weights and bounds from small domains, all small forbidden families",
  "Tests check one universe each.",
  [C + "induced_graphs", C + "forbidden_induced", C + "chordal", PY + "graphset.py"], [("specs", C + "induced_graphs"), ("forbidden induced", C + "forbidden_induced"), ("chordal", C + "chordal")],
  ["members of the returned GraphSet"])

p("C13", "Restricting a search to a family equals searching then intersecting",
  "For every enumeration that accepts a graphset (static with graphset=..., or called as a method of an object), the result equals the unrestricted result intersected with that family, for every family, and the family passed in is unchanged.",
  ["inputs"], "all enumerations that take a search space x all families of small universes, plus structured families of larger ones",
  "Tests try one search space for a few enumerations.",
  [PY + "graphset.py", PY + "digraphset.py", C + "graphset.cc", "src/subsetting/spec/GraphillionZdd.hpp", "src/subsetting/dd/DdBuilder.hpp"],
  [("zddSubset", "src/subsetting/DdStructure.hpp"), ("partial methods", PY + "graphset.py")], ["members of the returned family"])

p("C14", "Directed families are exact",
  "DiGraphSet.directed_cycles, directed_hamiltonian_cycles, directed_st_paths, rooted_forests, rooted_trees and graphs with in/out-degree constraints contain exactly the directed subgraphs of the universe with that structure, with edge direction respected.",
  ["inputs"], "all digraphs on up to 3 vertices, samples-free enumeration of 4-vertex digraphs, several edge orders, all roots, terminals and flags",
  "Tests use one small digraph.",
  [PY + "digraphset.py", C + "digraphs", "src/pygraphillion.cc"], [("directed frontier specs", C + "digraphs")], ["members of the returned DiGraphSet"])

p("C15", "Vertex-set families and edge/vertex conversions are exact",
  "VertexSetSet.independent_sets, dominating_sets, vertex_covers and cliques contain exactly the vertex subsets with that property, and GraphSet.to_vertexsetset and to_edgevertexsetset return exactly the vertex sets, respectively edge-and-vertex sets, of the members.",
  ["inputs"], "all labelled universes up to a size (with isolated vertices where allowed) and all families of small universes, all edge orders",
  "Tests use one or two universes.",
  [PY + "vertex_setset.py", PY + "graphset.py", PY + "universe.py", C + "variable_converter", PY + "edgevertex_setset.py"],
  [("variable converter", C + "variable_converter"), ("vertex families", PY + "vertex_setset.py")], ["members of the returned family"])

p("C16", "Probabilities and reliability equal the sum over members",
  "probability() equals the sum over members of the product of element probabilities and complements, and GraphSet.reliability equals the probability that the terminals are connected, for every family, every probability assignment (0 and 1 included), universe and terminal set.",
  ["inputs", "histories"], "all families of small universes x probability vectors that separate every member, all small graphs x terminal sets",
  "Tests evaluate a few numbers.",
  [C + "zdd.cc", C + "setset.cc", C + "reliability", PY + "setset_base.py", PY + "graphset.py"],
  [("probability recursion", C + "zdd.cc"), ("reliability", C + "reliability")], ["returned float"])

p("C17", "Reconfiguration steps produce exactly the one-step neighbours",
  "remove_some_edge/element/vertex, add_some_edge/element/vertex and remove_add_some_edges/elements/vertices return exactly the sets obtained from a member by removing one element, adding one new element, or exchanging one element for a different one not in it, in every class and after any history.",
  ["inputs", "histories"], "all families of small universes, repeated steps to a fixpoint, universes of different sizes in one process",
  "Tests apply each step to one family.",
  [C + "reconf.cc", "src/pygraphillion.cc"] + ALLPY, [("removeSomeElement/addSomeElement/removeAddSomeElements", C + "reconf.cc")], ["members of the returned family"])

p("C18", "Enumeration results do not depend on threads or scheduling",
  "Every enumeration returns the same family whatever the number of processors and OpenMP threads and however their work is interleaved, and none of these makes a call deadlock or crash.",
  ["schedules", "configurations"], "all assignments of parallel work to threads up to a bound, serial and parallel builders, 1 to 4 threads",
  "Tests run under whatever schedule the machine happens to produce, on tiny inputs.",
  ["src/subsetting/dd/DdBuilder.hpp", "src/subsetting/dd/DdReducer.hpp", "src/subsetting/DdStructure.hpp", "src/subsetting/dd/NodeTable.hpp", "src/subsetting/dd/DdSweeper.hpp"],
  [("multi-threaded builder", "src/subsetting/dd/DdBuilder.hpp"), ("parallel reduction", "src/subsetting/dd/DdReducer.hpp")], ["members of the returned family"],
  [("per-thread node tables", "partial results of each thread", "src/subsetting/dd/DdBuilder.hpp")])

p("C19", "A refused call raises and leaves everything unchanged",
  "A call with invalid arguments (values that are not the element, set or number the parameter needs, unknown edges or vertices, empty divisors, missing costs or probabilities, malformed graphs) raises a Python exception: it never ends or hangs the process, never delivers a value, and leaves the object, the arguments and the universe exactly as they were. (Operands that are families of another class are not covered.)",
  ["inputs", "fault_sequences"], "every public callable x a menu of invalid values in every argument position",
  "Tests check a few exceptions and never look at the state left behind.",
  ["src/pygraphillion.cc", PY + "universe.py"] + ALLPY, [("argument conversion", "src/pygraphillion.cc"), ("ObjectTable.conv_arg", PY + "setset_base.py")],
  ["exception type", "process still alive", "members and universe after the call"])

p("C20", "Memory safety",
  "No sequence of API calls makes the library read or write memory it does not own, use an object after it was released, release it twice, follow a null reference or index outside a container: whatever the arguments are, in whatever order objects, iterators and universes are made, changed and released (also from inside callbacks the library calls: iterators, generators, hashes, comparisons, weights), and whenever a garbage collection of diagram nodes strikes.",
  ["inputs", "histories", "faults"], "all calls, refused calls, re-entrant callbacks and event sequences to a depth, with a garbage collection at every node request, on the real code built with memory checking that stops at the first bad access",
  "Tests run once, without memory checking: a stray read or a use after release passes silently.",
  ["src/pygraphillion.cc", C + "setset.cc", C + "zdd.cc", "src/SAPPOROBDD/bddc.cc", "src/SAPPOROBDD/BDDCT.cc", "src/subsetting/util/MemoryPool.hpp"],
  [("PyObject lifetimes", "src/pygraphillion.cc"), ("diagram tables and caches", "src/SAPPOROBDD/bddc.cc")], ["reports of the memory checker", "exit of the process"],
  [("owned", "memory blocks allocated and not yet released", "src/pygraphillion.cc")])

p("C21", "GraphClass families contain exactly the graphs of the class",
  "Every GraphClass constructor returns exactly the subgraphs of the universe that belong to the named graph class (by its forbidden induced subgraphs or its structural definition) and changes nothing else.",
  ["inputs"], "all labelled universes up to a size, every constructor",
  "Tests compare counts on complete graphs only, where many orderings and shapes of universe never occur.",
  [PY + "graphclass.py", C + "forbidden_induced", C + "chordal", C + "degree_distribution"],
  [("forbidden-pattern composition", PY + "graphclass.py")], ["members of the returned GraphSet"])

p("C22", "Storage is released with the objects",
  "Once all objects made by a workload are gone, whether its calls returned or raised, the library holds no more diagram nodes, memory, references to the caller's objects or file descriptors than before, so that repeating any workload does not grow; and releasing objects, in any order, never disturbs the objects that remain.",
  ["inputs", "histories"], "every call, refused call, event history to a depth, deletion order of a set of objects and abandonment point of an iterator, repeated with exact accounting of nodes, blocks, bytes, references and descriptors",
  "Tests run once and never measure the node table, the heap or reference counts.",
  ["src/pygraphillion.cc", C + "setset.cc", "src/SAPPOROBDD/bddc.cc", "src/SAPPOROBDD/ZBDD.cc", "src/SAPPOROBDD/BDDCT.cc", "src/subsetting/eval/ToZBDD.hpp", PY + "universe.py"],
  [("reference counts of nodes", "src/SAPPOROBDD/bddc.cc"), ("reference counts of Python objects", "src/pygraphillion.cc")], ["live diagram nodes", "allocated blocks and bytes", "reference counts", "open descriptors"],
  [("refcount", "references held per node", "src/SAPPOROBDD/bddc.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
