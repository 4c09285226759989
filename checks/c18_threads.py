"""C18: enumeration under every schedule of a controlled OpenMP runtime."""
import ctypes
from itertools import combinations
from vrun import Unit
import gref
import _graphillion
from graphillion import GraphSet, DiGraphSet, VertexSetSet, setset
from graphillion.graphclass import GraphClass
from c12_induced import native_chordal
from graphillion.universe import Universe

PROPERTY, LEVEL = "C18", "model_checking"
VARIANT = "omp"
TECHNIQUE = "stateless model checking of the real parallel builder: schedules enumerated by a controlled OpenMP runtime up to a deviation bound"
NOTE = ("The extension is linked with an OpenMP runtime of our own whose threads are coroutines; which thread executes each dynamically scheduled "
        "iteration, which one runs a single block, the order of critical sections and preemption at every unordered pair of conflicting accesses "
        "(found by happens-before tracking of every instrumented access) are choice points, enumerated depth-first up to a number of deviations from four "
        "base schedules; each schedule runs the real code and its family is compared with the serial builder's.")
RULE = "one evaluation = one complete enumeration call under one schedule; non-trivial if at least two threads took part in a region"
ASSUMPTIONS = ["code between two synchronisation points that has no unordered conflicting access is executed atomically (sound for data-race-free "
               "sections; conflicting accesses found by the tracker become preemption points)",
               "the serial builder's families are judged against independent references by C08-C13, C16 and C21"]
BOUNDS = {"quick": "~58 calls on 5 universes x 1..4, 8, 16 threads x 4 base schedules; every single deviation for 2 and 3 threads; every pair of deviations "
                   "and every complete assignment of up to 13 work items on the triangle; every single preemption at a racing access on 4 universes",
          "thorough": "pairs of deviations for every call, every assignment of up to 18 work items (2 threads) and 12 (3 threads), pairs of preemptions, 25 universes"}
TIMEOUT = {"quick": 200, "thorough": 3000}

L = ctypes.PyDLL(_graphillion.__file__)
CHUNK, SINGLE, CRITICAL, PREEMPT = range(4)
_buf = (ctypes.c_int * 400000)()
_rr = (ctypes.c_uint64 * 20000)()
L.omps_preempt.argtypes = [ctypes.c_uint64]


def races():
    k = min(L.omps_races(_rr, 10000), 10000)
    return {_rr[i] for i in range(2 * k)}


class Sched:
    """Runs f under planned schedules."""

    def __init__(self, ctx, name, f, threads, mode, expected, view):
        self.ctx, self.name, self.f, self.T, self.mode = ctx, name, f, threads, mode
        self.expected, self.view = expected, view

    def run(self, plan, track=0):
        ctx = self.ctx
        L.omps_config(self.T, 8, self.mode, track)
        L.omps_start()
        for at, what in plan:
            L.omps_plan(at, what)
        ctx.case((self.name, "threads", self.T, "base", self.mode, "deviations", plan))
        got = outcome(self.f, self.view)
        n = L.omps_trace(_buf, 100000)
        if L.omps_stat(1):
            ctx.nt()
        ctx.traces += 1
        ctx.states += L.omps_stat(1) + 1
        ctx.transitions += n
        if got != self.expected:
            ctx.fail("the family depends on the schedule", sorted(self.expected) if isinstance(self.expected, (set, frozenset)) else self.expected,
                     sorted(got) if isinstance(got, (set, frozenset)) else got)
        return [tuple(_buf[4 * i:4 * i + 4]) for i in range(n)]

    def explore(self, depth, kinds, plan=(), first=None, track=0, limit=None):
        """every schedule with at most depth deviations (of the given kinds) after the plan"""
        tr = self.run(plan, track)
        n = 1
        if depth == 0:
            return n
        start = plan[-1][0] + 1 if plan else 0
        for i in range(start, len(tr)):
            kind, alts, chosen, wrote = tr[i]
            if kind not in kinds or (kind == CHUNK and not wrote):
                continue            # an iteration that writes nothing shared is the same whoever runs it
            for v in range(alts):
                if v != chosen:
                    n += self.explore(depth - 1, kinds, plan + ((i, v),), None, track)
        return n


def serial(f, view):
    L.omps_preempt_clear()
    L.omps_config(1, 1, 0, 0)
    L.omps_start()
    return outcome(f, view)


def outcome(f, view):
    try:
        return view(f())
    except Exception as e:
        return "raised " + type(e).__name__


def fam(x):
    if isinstance(x, (int, float)):
        return x
    return frozenset(frozenset(m) if not isinstance(m, list) else frozenset(m) for m in x)


UNIV = {
    "tri": [(1, 2), (1, 3), (2, 3)],
    "diamond": [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)],
    "k4": list(combinations(range(1, 5), 2)),
    "grid23": [(1, 2), (2, 3), (4, 5), (5, 6), (1, 4), (2, 5), (3, 6)],
    "bow": [(1, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 5), (5, 6)],
    "k5": list(combinations(range(1, 6), 2)),
    "grid33": [(1, 2), (2, 3), (4, 5), (5, 6), (7, 8), (8, 9), (1, 4), (2, 5), (3, 6), (4, 7), (5, 8), (6, 9)],
}
UNIV["prism"] = [(1, 2), (2, 3), (1, 3), (4, 5), (5, 6), (4, 6), (1, 4), (2, 5), (3, 6)]
UNIV["wheel"] = [(1, 2), (2, 3), (3, 4), (4, 5), (1, 5), (1, 6), (2, 6), (3, 6), (4, 6), (5, 6)]
UNIV["k33"] = [(a, b) for a in (1, 2, 3) for b in (4, 5, 6)]
for _n in list(UNIV):
    _E = UNIV[_n]
    for _k in (2, 3, 4):       # other edge orders: long frontiers, edges that skip levels
        UNIV["%s@%d" % (_n, _k)] = [e for r in range(_k) for e in _E[r::_k]]
    UNIV[_n + "@r"] = _E[::-1]


def calls(V, E):
    """name -> thunk: every enumeration that takes the parallel paths (and some that must not care)."""
    s, t, u = V[0], V[-1], V[1]
    space = lambda: GraphSet.graphs(num_edges=range(1, 4))
    R = {
        "graphs": lambda: GraphSet.graphs(),
        "vertex_groups": lambda: GraphSet.graphs(vertex_groups=[[s, t], [u]]),
        "vertex_groups2": lambda: GraphSet.graphs(vertex_groups=[[s], [t, u], []]),
        "degree": lambda: GraphSet.graphs(degree_constraints={v: range(1, 3) for v in V}),
        "degree0": lambda: GraphSet.graphs(degree_constraints={v: range(0, 3, 2) for v in V}, no_loop=False),
        "num_edges": lambda: GraphSet.graphs(num_edges=range(2, 4)),
        "no_loop": lambda: GraphSet.graphs(no_loop=True),
        "linear": lambda: GraphSet.graphs(linear_constraints=[([e + (1 + i % 3,) for i, e in enumerate(E)], (2, 5))]),
        "linear2": lambda: GraphSet.graphs(linear_constraints=[([e + (1,) for e in E], (1, 3)), ([E[0] + (1,), E[-1] + (-1,)], (0, 1))], no_loop=True),
        "linear_deg": lambda: GraphSet.graphs(linear_constraints=[([e + (1 + i % 2,) for i, e in enumerate(E)], (2, 5))],
                                              degree_constraints={s: 1, t: range(0, 2)}, num_edges=range(1, 4)),
        "all": lambda: GraphSet.graphs(vertex_groups=[[s, t]], degree_constraints={s: 1, t: 1}, num_edges=range(1, 5), no_loop=True),
        "space": lambda: GraphSet.graphs(vertex_groups=[[s, t]], graphset=space()),
        "space_deg": lambda: GraphSet.graphs(degree_constraints={v: range(0, 2) for v in V}, graphset=space()),
        "connected": lambda: GraphSet.connected_components([s, t]),
        "cliques": lambda: GraphSet.cliques(3),
        "trees": lambda: GraphSet.trees(),
        "spanning": lambda: GraphSet.trees(is_spanning=True),
        "rooted": lambda: GraphSet.trees(root=s),
        "forests": lambda: GraphSet.forests([s, t]),
        "spforests": lambda: GraphSet.forests([s, t], is_spanning=True),
        "cycles": lambda: GraphSet.cycles(),
        "hamilton": lambda: GraphSet.cycles(is_hamilton=True),
        "paths": lambda: GraphSet.paths(s, t),
        "anypaths": lambda: GraphSet.paths(),
        "hampaths": lambda: GraphSet.paths(s, t, is_hamilton=True),
        "matchings": lambda: GraphSet.matchings(),
        "perfect": lambda: GraphSet.perfect_matchings(),
        "kmatch": lambda: GraphSet.k_matchings(2),
        "bmatch": lambda: GraphSet.b_matchings({s: 2, t: 1}),
        "kfactor": lambda: GraphSet.k_factors(2),
        "ffactor": lambda: GraphSet.f_factors({s: 1, t: 1}),
        "regular": lambda: GraphSet.regular_graphs(),
        "regular2": lambda: GraphSet.regular_graphs(degree=2),
        "regular12": lambda: GraphSet.regular_graphs(degree=(1, 2), is_connected=False),
        "regular_in": lambda: GraphSet.regular_graphs(degree=2, graphset=space()),
        "bip": lambda: GraphSet.bipartite_graphs(),
        "bip_all": lambda: GraphSet.bipartite_graphs(is_connected=False),
        "regbip": lambda: GraphSet.regular_bipartite_graphs(),
        "steiner": lambda: GraphSet.steiner_subgraphs([s, t]),
        "steiner_trees": lambda: GraphSet.steiner_trees([s, u, t]),
        "steiner_cycles": lambda: GraphSet.steiner_cycles([s, t]),
        "steiner_paths": lambda: GraphSet.steiner_paths([s, t]),
        "degdist": lambda: GraphSet.degree_distribution_graphs({1: 2, 2: 2}, True),
        "degdist2": lambda: GraphSet.degree_distribution_graphs({0: 0, 1: 2, 2: GraphSet.DegreeDistribution_Any}, False),
        "letterP": lambda: GraphSet.letter_P_graphs(),
        "partitions": lambda: GraphSet.partitions(num_comp_lb=1, num_comp_ub=3),
        "balanced": lambda: GraphSet.balanced_partitions({v: 1 + i for i, v in enumerate(V)}, ratio=3.0),
        "balanced2": lambda: GraphSet.balanced_partitions({v: 1 for v in V}, lower=1, upper=3, num_comps=2),
        "induced": lambda: GraphSet.induced_graphs(),
        "windu": lambda: GraphSet.weighted_induced_graphs({v: 1 + i for i, v in enumerate(V)}, 2, 6),
        "forbidden": lambda: GraphSet.forbidden_induced_subgraphs(GraphSet.cycles()),
        "forbidden2": lambda: GraphSet.forbidden_induced_subgraphs(GraphSet.paths(s, t)),
        "chordal": lambda: GraphClass.chordal_graphs(),
        "chordal_native": lambda: native_chordal(),
        "bipartite_free": lambda: GraphClass.split_graphs(),
        "reliability": lambda: GraphSet.reliability({e: 0.5 for e in E}, [s, t]),
        "reliability3": lambda: GraphSet.reliability({e: 0.25 + 0.125 * (i % 4) for i, e in enumerate(E)}, [s, u, t]),
        "rel_all": lambda: GraphSet.reliability({e: 0.5 for e in E}, V),
    }
    return R


def setup(name, order=None):
    E = list(UNIV[name]) if isinstance(name, str) else list(name)
    GraphSet.set_universe(E, traversal="as-is")
    V = sorted({v for e in E for v in e})
    return V, GraphSet.universe()


def pick(C, part, parts):
    return list(C)[part::parts]


def u_base(ctx, uname, part, parts, Ts):
    """every call x threads x base schedule"""
    V, E = setup(uname)
    C = calls(V, E)
    for k in pick(C, part, parts):
        exp = serial(C[k], fam)
        ctx.count("calls_that_raise", isinstance(exp, str))
        for T in Ts:
            for mode in range(4):
                Sched(ctx, (uname, k), C[k], T, mode, exp, fam).run((), 0)


def u_dev(ctx, uname, part, parts, T, modes, depth, kinds, names=None):
    V, E = setup(uname)
    C = calls(V, E)
    for k in pick(names or C, part, parts):
        exp = serial(C[k], fam)
        for mode in modes:
            s = Sched(ctx, (uname, k), C[k], T, mode, exp, fam)
            ctx.count("schedules_%d_deviations" % depth, s.explore(depth, kinds))


def u_preempt(ctx, uname, part, parts, T, modes, depth, names=None):
    """preemption at racing accesses"""
    V, E = setup(uname)
    C = calls(V, E)
    for k in pick(names or C, part, parts):
        exp = serial(C[k], fam)
        for mode in modes:
            s = Sched(ctx, (uname, k), C[k], T, mode, exp, fam)
            L.omps_preempt_clear()
            L.omps_races_clear()
            s.explore(1 if T == 2 and len(E) < 6 else 0, (CHUNK, SINGLE, CRITICAL), track=1)
            R = races()
            ctx.count("racing_locations", len(R))
            if not R:
                continue
            for pc in R:
                L.omps_preempt(pc)
            ctx.count("schedules_%d_preemptions" % depth, s.explore(depth, (PREEMPT,)))
            L.omps_preempt_clear()


def u_full(ctx, uname, part, parts, T, cap):
    """every assignment of every work item, for the calls that have at most `cap` items"""
    V, E = setup(uname)
    C = calls(V, E)
    for k in pick(C, part, parts):
        exp = serial(C[k], fam)
        s = Sched(ctx, (uname, k), C[k], T, 0, exp, fam)
        items = sum(1 for kind, n, c, wrote in s.run(()) if kind == CHUNK and wrote)
        if 0 < items <= cap:
            ctx.count("calls_under_every_assignment")
            ctx.count("full_assignment_schedules", s.explore(99, (CHUNK,)))


def u_k4(ctx, part, parts, Ts):
    """every labelled graph on 4 vertices"""
    K = list(combinations(range(1, 5), 2))
    for m in range(1 + part, 1 << len(K), parts):
        ed = [e for i, e in enumerate(K) if m >> i & 1]
        V, E = setup(ed)
        if len(V) < 2:
            continue
        C = calls(V, E)
        for k in C:
            exp = serial(C[k], fam)
            for T, mode in Ts:
                Sched(ctx, (tuple(ed), k), C[k], T, mode, exp, fam).run((), 0)


ALL = (CHUNK, SINGLE, CRITICAL)


SMALL = ["spanning", "forests", "paths", "matchings", "regular2", "induced", "chordal", "reliability", "degree", "linear_deg", "bip", "balanced"]


def units(tier):
    U = []
    q = tier == "quick"
    W = 8

    def add(kind, un, T, modes, depth, f, *rest, parts=W):
        for p in range(parts):
            U.append(Unit("%s%d-%s-%d-m%s-%d" % (kind, depth, un, T, "".join(map(str, modes)), p), f, (un, p, parts, T, modes, depth) + rest))
    # every preemption at a racing access
    for un in ("k33@2", "wheel@2", "prism@3"):
        add("pre", un, 2, (1,), 1, u_preempt, parts=16)
        add("pre", un, 3, (1,) if un != "prism@3" else (3,), 1, u_preempt, parts=16)
    # every single deviation from the base schedules
    for un in ("grid23", "diamond"):
        add("dev", un, 2, (0, 1), 1, u_dev, ALL)
        add("dev", un, 3, (3,), 1, u_dev, ALL)
        add("pre", un, 3, (1,), 1, u_preempt)
    # every pair of deviations, every assignment of up to `depth` items
    add("pair", "tri", 2, (1,), 2, u_dev, ALL, SMALL)
    add("pair", "tri", 3, (3,), 2, u_dev, ALL, SMALL[:4])
    for p in range(W):
        U.append(Unit("full-tri-%d" % p, u_full, ("tri", p, W, 2, 13)))
    for un in ("diamond", "k4", "grid23", "bow", "k5@r"):
        for p in range(W):
            U.append(Unit("base-%s-%d" % (un, p), u_base, (un, p, W, (1, 2, 3, 4, 8, 16))))
    for p in range(W):
        U.append(Unit("k4-%d" % p, u_k4, (p, W, ((2, 1), (3, 3), (8, 1)) if q else [(T, m) for T in (2, 3, 4) for m in range(4)])))
    if not q:
        for un in ("prism", "prism@2", "k33@3", "k5@r", "wheel", "wheel@4", "k5@2", "grid23@2", "grid23@r"):
            for T, m in ((2, (1,)), (3, (1,)), (2, (3,)), (3, (3,)), (4, (3,))):
                add("pre", un, T, m, 1, u_preempt, parts=16)
        for un in ("diamond", "k4", "grid23"):
            add("pre", un, 2, (1, 3), 2, u_preempt, parts=16)
        for un in ("k4", "bow", "k5@r", "prism@3"):
            for T, m in ((2, (0, 1)), (3, (1, 3)), (4, (3,))):
                add("dev", un, T, m, 1, u_dev, ALL, parts=16)
        add("pair", "diamond", 2, (1,), 2, u_dev, ALL, parts=56)
        add("pair", "diamond", 3, (3,), 2, u_dev, ALL, SMALL, parts=12)
        for p in range(58):
            U.append(Unit("full18-tri-%d" % p, u_full, ("tri", p, 58, 2, 18)))
            U.append(Unit("full3-tri-%d" % p, u_full, ("tri", p, 58, 3, 12)))
        for un in UNIV:
            for p in range(W):
                U.append(Unit("base2-%s-%d" % (un, p), u_base, (un, p, W, (2, 3, 5, 13))))
    return U
