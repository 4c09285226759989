"""C19: refused calls raise and change nothing.

Single-fault (thorough: also two-fault) enumeration: every public callable of
every class is called with every argument replaced, in turn, by every value of
a pool of wrong ones.  The process must survive, a call that raises must raise
an ordinary Exception and leave every object, argument and universe as it was,
and calls that are invalid by documentation must raise."""
import io, math
from itertools import product
from vrun import Unit
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet, GraphClass
from graphillion.edgevertex_setset import EdgeVertexSetSet
from graphillion.universe import Universe

PROPERTY, LEVEL, VARIANT = "C19", "exploration", "ext"
TECHNIQUE = "exhaustive single- and double-fault enumeration of argument values over every public callable, with a full state comparison after each call"
NOTE = ("Every public method and constructor of the five classes, GraphClass and Universe is called with every argument position replaced by each of about 90 wrong "
        "values; crashes and exits are seen because each group runs in its own process; state (all objects, arguments, universes) is compared before and after.")
RULE = "one evaluation = one call with at least one wrong argument, judged for survival, exception type and unchanged state; non-trivial if it raised"
ASSUMPTIONS = ["values the documentation does not exclude may be accepted (duck typing); only calls listed as invalid must raise",
               "arguments whose own methods have side effects are the caller's responsibility"]
BOUNDS = {"quick": "all callables x argument positions x about 90 wrong values (single faults); all pairs of faults over about 55 values; 30 wrong values at every place inside every valid argument (elements, keys, values, at every depth, and one element more); about 6000 calls that must raise, on 4 universes and 4 receivers each",
          "thorough": "all pairs of faults over all the values"}

EDGES = [(1, 2), (1, 3, 2.0), (2, 3), (3, 4), (2, 4)]
E2 = [e[:2] for e in EDGES]
ARCS = [(1, 2), (2, 1), (2, 3), (3, 1, -1.5), (3, 4)]
A2 = [e[:2] for e in ARCS]


class Evil:
    """every protocol raises"""

    def _r(self, *a):
        raise RuntimeError("evil")
    __iter__ = __len__ = __hash__ = __bool__ = __index__ = __int__ = __float__ = __getitem__ = __next__ = __contains__ = _r
    items = keys = read = write = fileno = __lt__ = __eq__ = _r

    def __repr__(self):
        return "Evil()"


class EvilHash:
    def __hash__(self):
        raise RuntimeError("hash")

    def __repr__(self):
        return "EvilHash()"


class EvilEq:
    def __hash__(self):
        return hash(1)

    def __eq__(self, o):
        raise RuntimeError("eq")

    def __repr__(self):
        return "EvilEq()"


def raising(n, *first):
    for x in first:
        yield x
    raise RuntimeError("iterator")


class BadInt(int):
    def __repr__(self):
        return "BadInt"


class World:
    def __init__(self):
        GraphSet.show_messages(False)
        GraphSet.set_universe(EDGES, traversal="as-is")
        DiGraphSet.set_universe(ARCS, traversal="as-is")
        setset.set_universe([1, 2, 3, "x"])
        self.o = {"s": setset([{1, 2}, {3}, set(), {"x", 1}]), "t": setset([{1}, {2}]),
                  "g": GraphSet([[(1, 2)], [(2, 3), (3, 4)], [], [(1, 3), (2, 3), (1, 2)]]), "h": GraphSet([[(1, 2)], [(2, 4)]]),
                  "d": DiGraphSet([[(1, 2)], [(2, 3), (3, 4)], []]), "c": DiGraphSet([[(1, 2), (2, 3)]]),
                  "v": VertexSetSet([[1, 2], [3], []]), "w": VertexSetSet([[1], [4, 2]]),
                  "e": GraphSet([[(1, 2)], [(2, 3), (3, 4)]]).to_edgevertexsetset(), "f": GraphSet([[(1, 2)]]).to_edgevertexsetset(),
                  "se": setset(), "ge": GraphSet(), "de": DiGraphSet(), "ve": VertexSetSet(), "ee": EdgeVertexSetSet()}

    def snap(self):
        return (setset.universe(), GraphSet.universe(), VertexSetSet.universe(), DiGraphSet.universe(), Universe.edge_vertex_universe(),
                {k: x.dumps() for k, x in self.o.items()}, GraphSet.converters["to_graph"]([1]), sorted(map(repr, Universe.vertices)))


def freeze(x, depth=0):
    if isinstance(x, (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet)):
        try:
            return type(x).__name__ + x.dumps()
        except Exception:
            return type(x).__name__
    if depth > 4:
        return "..."
    if isinstance(x, dict):
        return ("d", [(freeze(k, depth + 1), freeze(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y, depth + 1) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted([repr(y) for y in x]))
    if isinstance(x, (int, float, str, bytes, type(None))):
        return repr(x)
    return type(x).__name__


def selfref():
    l = []
    l.append(l)
    return l


# name -> (producer, tags)
POOL = [
    ("None", lambda W: None), ("True", lambda W: True), ("-1", lambda W: -1), ("0", lambda W: 0), ("7777", lambda W: 7777), ("2**31", lambda W: 2 ** 31), ("-2**31-1", lambda W: -2 ** 31 - 1),
    ("2**63", lambda W: 2 ** 63), ("10**30", lambda W: 10 ** 30), ("-10**30", lambda W: -10 ** 30), ("1.5", lambda W: 1.5), ("nan", lambda W: math.nan), ("inf", lambda W: math.inf),
    ("-inf", lambda W: -math.inf), ("complex", lambda W: 1j), ("'zz'", lambda W: "zz"), ("''", lambda W: ""), ("nul", lambda W: "a\0b"), ("surrogate", lambda W: "\ud800"), ("bytes", lambda W: b"x"),
    ("object", lambda W: object()), ("lambda", lambda W: (lambda *a: None)), ("type", lambda W: int), ("...", lambda W: Ellipsis), ("Evil", lambda W: Evil()), ("EvilHash", lambda W: EvilHash()),
    ("EvilEq", lambda W: EvilEq()), ("[]", lambda W: []), ("()", lambda W: ()), ("{}", lambda W: {}), ("set()", lambda W: set()), ("frozenset", lambda W: frozenset()), ("[[]]", lambda W: [[]]),
    ("[None]", lambda W: [None]), ("[5]", lambda W: [5]), ("[9,9]", lambda W: [9, 9]), ("{9}", lambda W: {9}), ("[[9]]", lambda W: [[9]]), ("['x']", lambda W: ["zz"]), ("[(9,9)]", lambda W: [(9, 9)]),
    ("(9,9)", lambda W: (9, 9)), ("(1,9)", lambda W: (1, 9)), ("(1,)", lambda W: (1,)), ("(1,4)", lambda W: (1, 4)), ("(1,2,3,4)", lambda W: (1, 2, 3, 4)), ("([],1)", lambda W: ([], 1)),
    ("[(1,)]", lambda W: [(1,)]), ("[[1,2]]", lambda W: [[1, 2]]), ("[[(1,4)]]", lambda W: [[(1, 4)]]), ("[[(1,2),(9,9)]]", lambda W: [[(1, 2), (9, 9)]]), ("[[(1,2)],5]", lambda W: [[(1, 2)], 5]),
    ("[{1},5]", lambda W: [{1}, 5]), ("[{1},[[]]]", lambda W: [{1}, [[]]]), ("[{99},5]", lambda W: [{99}, 5]), ("{5:5}", lambda W: {5: 5}), ("{None:None}", lambda W: {None: None}), ("{1:'a'}", lambda W: {1: "a"}), ("{1:None}", lambda W: {1: None}),
    ("{1:[]}", lambda W: {1: []}), ("{1:range(0)}", lambda W: {1: range(0)}), ("{1:[3,1]}", lambda W: {1: [3, 1]}), ("{1:range(3,0,-1)}", lambda W: {1: range(3, 0, -1)}), ("[2,2]", lambda W: [2, 2]), ("{1:[2,2]}", lambda W: {1: [2, 2]}), ("range(3,0,-1)", lambda W: range(3, 0, -1)),
    ("{1:[1,2,5]}", lambda W: {1: [1, 2, 5]}), ("{1:-3}", lambda W: {1: -3}), ("{1:[-2,-1]}", lambda W: {1: [-2, -1]}), ("{1:2**33}", lambda W: {1: 2 ** 33}), ("{9:1}", lambda W: {9: 1}), ("{(1,2):'a'}", lambda W: {(1, 2): "a"}), ("{(1,2):nan}", lambda W: {e: math.nan for e in E2}),
    ("{(1,2):2}", lambda W: {e: 2 for e in E2 + A2}), ("{all:huge}", lambda W: {e: 10 ** 30 for e in E2 + A2}), ("{1..:huge}", lambda W: {e: 2 ** 40 for e in (1, 2, 3, 4)}), ("{(9,9):1}", lambda W: {(9, 9): 1}), ("{'include':5}", lambda W: {"include": 5}), ("{'include':[9,(9,9)]}", lambda W: {"include": [(9, 9)]}),
    ("{'inclde':[]}", lambda W: {"inclde": []}), ("{5:[]}", lambda W: {5: []}), ("range(0)", lambda W: range(0)), ("range(5,1)", lambda W: range(5, 1)), ("range(-3,9,4)", lambda W: range(-3, 9, 4)), ("iter", lambda W: iter([])),
    ("raising0", lambda W: raising(0)), ("raising1", lambda W: raising(0, {1})), ("raising2", lambda W: raising(0, [(1, 2)])), ("selfref", lambda W: selfref()), ("file", lambda W: io.StringIO()),
    ("setset", lambda W: W.o["s"]), ("GraphSet", lambda W: W.o["g"]), ("DiGraphSet", lambda W: W.o["d"]), ("VertexSetSet", lambda W: W.o["v"]), ("EdgeVertexSetSet", lambda W: W.o["e"]),
    ("empty setset", lambda W: W.o["se"]), ("empty GraphSet", lambda W: W.o["ge"]), ("empty DiGraphSet", lambda W: W.o["de"]), ("empty VertexSetSet", lambda W: W.o["ve"]),
    ("uninit setset", lambda W: setset.__new__(setset)), ("uninit GraphSet", lambda W: GraphSet.__new__(GraphSet)), ("class", lambda W: GraphSet),
    ("nested", lambda W: [[[[1]]]]), ("[(1,2)]*2", lambda W: [(1, 2), (1, 2)]), ("str list", lambda W: [["a", "b"]]), ("{1:inf}", lambda W: {1: math.inf, 2: 1}), ("{1:-5}", lambda W: {1: -5, 2: -6, 3: 0, 4: 1}),
    # an unknown element that is looked at before one that cannot be
    ("{8,EvilEq}", lambda W: {8, EvilEq()}), ("[{8,EvilEq}]", lambda W: [{1}, {8, EvilEq()}]), ("[8,EvilEq]", lambda W: [8, EvilEq()]), ("{'include':[8,EvilEq]}", lambda W: {"include": [8, EvilEq()]}),
    ("{8:1,EvilEq:1}", lambda W: {8: 1, EvilEq(): 1}),
    ("{'include':[1],5:[2]}", lambda W: {"include": [], 5: []}),
]
SMALL = ["None", "-1", "10**30", "1.5", "'zz'", "object", "Evil", "[]", "[(9,9)]", "{5:5}", "setset", "GraphSet", "uninit GraphSet", "raising1"]

FAMILY_OPS = ["union", "intersection", "difference", "symmetric_difference", "quotient", "remainder", "join", "meet", "isdisjoint", "issubset", "issuperset", "update", "intersection_update",
              "difference_update", "symmetric_difference_update", "quotient_update", "remainder_update", "subsets", "supersets", "non_subsets", "non_supersets", "subgraphs", "supergraphs", "non_subgraphs",
              "non_supergraphs"]
DUNDER = ["__or__", "__and__", "__sub__", "__xor__", "__truediv__", "__mod__", "__ior__", "__iand__", "__isub__", "__ixor__", "__itruediv__", "__imod__", "__le__", "__lt__", "__ge__", "__gt__"]


def calls():
    """name -> (receiver key or None, callable(receiver, *args), valid argument producers)"""
    out = {}
    cls = {"s": (setset, "t", 1, {1}, {1: 2, 2: 3, 3: 0, "x": 1}), "g": (GraphSet, "h", (1, 2), [(1, 2)], {e: i for i, e in enumerate(E2)}),
           "d": (DiGraphSet, "c", (1, 2), [(1, 2)], {e: i for i, e in enumerate(A2)}), "v": (VertexSetSet, "w", 1, [1], {i: i for i in (1, 2, 3, 4)}),
           "e": (EdgeVertexSetSet, "f", (1, 2), [(1, 2), 1, 2], dict({e: i for i, e in enumerate(E2)}, **{}) | {i: 1 for i in (1, 2, 3, 4)})}
    for k, (C, other, elem, member, costs) in cls.items():
        probs = {e: 0.5 for e in costs}

        def add(name, *args, k=k, C=C):
            if hasattr(C, name):
                out["%s.%s" % (C.__name__, name)] = (k, lambda r, *a: getattr(r, name)(*a), args)
        fam = lambda W, other=other: W.o[other]
        for n in FAMILY_OPS + DUNDER:
            add(n, fam)
        for n in ("including", "excluding", "included", "add", "remove", "discard", "flip", "__contains__", "add_vertex", "supersets", "non_supersets"):
            el = elem
            if n == "add_vertex":
                el = 3
            if n == "add" and k == "e":
                el = member
            add(n, lambda W, el=el: el)
        for n in ("smaller", "larger", "set_size", "graph_size", "len"):
            add(n, lambda W: 2)
        for n in ("min_iter", "max_iter"):
            if hasattr(C, n):
                out["%s.%s" % (C.__name__, n)] = (k, lambda r, *a, n=n: [0 for _ in getattr(r, n)(*a)], (lambda W, c=costs: dict(c),) + ((lambda W: 1,) if k == "s" else ()))
        for n in ("cost_le", "cost_ge", "cost_eq"):
            add(n, lambda W, c=costs: dict(c), lambda W: 3)
        add("probability", lambda W, p=probs: dict(p))
        out["%s()" % C.__name__] = (None, lambda r, *a, C=C: C(*a), (lambda W, m=member: [m, []] if not isinstance(m, set) else [m, set()],))
        out["%s({})" % C.__name__] = (None, lambda r, a, b, C=C: C({"include": a, "exclude": b}), (lambda W, e=elem: [e], lambda W: []))
        out["%s re-init" % C.__name__] = (k, lambda r, *a: r.__init__(*a), (lambda W, m=member: [m],))
        out["%s.loads" % C.__name__] = (None, lambda r, a, C=C: C.loads(a), (lambda W: "B\n.\n",))
        out["%s.load" % C.__name__] = (None, lambda r, a, C=C: C.load(a), (lambda W: io.StringIO("B\n.\n"),))
        add("dump", lambda W: io.StringIO())
        out["%s.iter" % C.__name__] = (k, lambda r, *a: list(r.iter(*a)) if hasattr(r, "iter") else None, ())
        for n in ("choice", "pop"):
            if hasattr(C, n):
                out["%s.%s/empty" % (C.__name__, n)] = (k + "e", lambda r, n=n: getattr(r, n)(), ())
    G, D, V = GraphSet, DiGraphSet, VertexSetSet
    gs = lambda W: W.o["g"]
    term = lambda W: [1, 3]

    def st(name, C, *args):
        out["%s.%s" % (C.__name__, name)] = (None, lambda r, *a: getattr(C, name)(*a), args)
    deg = lambda W: {v: range(0, 3) for v in (1, 2, 3, 4)}
    n2 = lambda W: 2
    no = lambda W: False
    vw = lambda W: {1: 1, 2: 2, 3: 1, 4: 3}
    st("graphs", G, lambda W: [[1, 3], [2]], deg, lambda W: range(1, 4), no, gs, lambda W: [([(1, 2, 1.0), (2, 3)], (0, 1))])
    st("connected_components", G, term, gs)
    st("cliques", G, n2, gs)
    st("bicliques", G, n2, n2, gs)
    st("trees", G, lambda W: 1, no, gs)
    st("forests", G, term, no, gs)
    st("cycles", G, no, gs)
    st("paths", G, lambda W: 1, lambda W: 3, no, gs)
    st("matchings", G, gs)
    st("perfect_matchings", G, gs)
    st("k_matchings", G, n2, gs)
    st("b_matchings", G, lambda W: {1: 1, 2: 1, 3: 1, 4: 1}, gs)
    st("k_factors", G, n2, gs)
    st("f_factors", G, lambda W: {1: 1, 2: 1, 3: 1, 4: 1}, gs)
    st("regular_graphs", G, n2, no, gs)
    st("bipartite_graphs", G, no, gs)
    st("regular_bipartite_graphs", G, n2, no, gs)
    for n in ("steiner_subgraphs", "steiner_trees", "steiner_cycles", "steiner_paths"):
        st(n, G, term, gs)
    st("degree_distribution_graphs", G, lambda W: {1: 2, 2: 1}, no, gs)
    st("letter_P_graphs", G, gs)
    st("partitions", G, lambda W: 1, lambda W: 3)
    st("balanced_partitions", G, vw, lambda W: 2.0, lambda W: 1, lambda W: 9, n2)
    st("weighted_induced_graphs", G, vw, lambda W: 1, lambda W: 5)
    st("forbidden_induced_subgraphs", G, gs)
    st("reliability", G, lambda W: {e: .5 for e in E2}, term)
    st("set_universe", G, lambda W: list(EDGES), lambda W: "as-is", lambda W: 1)
    st("show_messages", G, no)
    st("set_universe", D, lambda W: list(ARCS), lambda W: "as-is", lambda W: 1)
    st("directed_cycles", D, lambda W: W.o["d"])
    st("directed_hamiltonian_cycles", D, lambda W: W.o["d"])
    st("directed_st_paths", D, lambda W: 1, lambda W: 3, no, lambda W: W.o["d"])
    st("rooted_forests", D, lambda W: [1], no, lambda W: W.o["d"])
    st("rooted_trees", D, lambda W: 1, no, lambda W: W.o["d"])
    st("graphs", D, deg, deg, lambda W: W.o["d"])
    el = lambda W: list(E2)
    st("independent_sets", V, el, lambda W: 1)
    st("dominating_sets", V, el, lambda W: 1)
    st("vertex_covers", V, el)
    st("cliques", V, el)
    st("set_universe", V, lambda W: [1, 2, 3, 4])
    st("set_universe", setset, lambda W: [1, 2, 3, "x"])
    st("set_universe", Universe, lambda W: list(EDGES), lambda W: "as-is", lambda W: 1, lambda W: {1: 2.0}, lambda W: [7])
    st("set_vertex_universe", Universe, lambda W: [1, 2, 3, 4], lambda W: {1: 2.0}, no)
    return out


UPDATING = {"add", "remove", "discard", "flip", "update", "intersection_update", "difference_update", "symmetric_difference_update", "quotient_update", "remainder_update", "__ior__", "__iand__",
            "__isub__", "__ixor__", "__itruediv__", "__imod__", "add_vertex", "pop", "re-init", "set_universe", "set_vertex_universe", "load", "dump"}


def attempt(ctx, W, name, spec, faults, before):
    """calls with the argument positions in faults replaced; returns True if state may have changed."""
    key, fn, valid = spec
    args = [p(W) for p in valid]
    for pos, (label, prod) in faults.items():
        args[pos] = prod(W)
    fr = [freeze(a) for a in args]
    ctx.case((name, {p: f[0] for p, f in faults.items()}))
    recv = W.o[key] if key else None
    try:
        r = fn(recv, *args)
    except Exception:
        ctx.nt()
        after = W.snap()
        if after != before:
            ctx.fail("a refused call changed the state", before, after)
        if [freeze(a) for a in args] != fr:
            ctx.fail("a refused call changed its arguments", fr, [freeze(a) for a in args])
        return False
    except BaseException as e:
        ctx.fail("the call ended the process or raised a non-Exception", "an exception", repr(e))
    ctx.count("accepted")
    meth = name.split(".")[-1].split(" ")[-1]
    # whatever came out must be usable
    if isinstance(r, (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet)):
        try:
            r.len(), r.dumps(), bool(r), [0 for _, _ in zip(range(3), r)]
        except (ValueError, RuntimeError, TypeError, KeyError, IndexError):      # uninitialized or of another class
            pass
    if meth in UPDATING or name.startswith("setset"):
        return True         # W is made anew
    after = W.snap()
    if after != before:
        ctx.fail("a call that does not update changed the state", before, after)
    return False


def sane(name, label):
    """nan differs from itself: it cannot be an element of a universe"""
    if label in ("0", "True") and name.endswith((".load", ".dump")):
        return False        # file descriptors of the harness
    return not (label == "nan" and name.startswith("setset"))


def u_single(ctx, name):
    spec = calls()[name]
    W = World()
    before = W.snap()
    for pos in range(len(spec[2])):
        for label, prod in POOL:
            if not sane(name, label):
                continue
            if attempt(ctx, W, name, spec, {pos: (label, prod)}, before):
                W = World()
                before = W.snap()
    if not spec[2]:
        attempt(ctx, W, name, spec, {}, before)


def u_double(ctx, name, labels):
    spec = calls()[name]
    W = World()
    before = W.snap()
    pool = [p for p in POOL if p[0] in labels]
    n = len(spec[2])
    for i in range(n):
        for j in range(i + 1, n):
            for a in pool:
                for b in pool:
                    if attempt(ctx, W, name, spec, {i: a, j: b}, before):
                        W = World()
                        before = W.snap()


# ---- faults inside the arguments --------------------------------------------
LEAVES = ["None", "True", "-1", "0", "7777", "2**31", "-2**31-1", "2**63", "10**30", "1.5", "nan", "inf", "'zz'", "''", "nul", "surrogate", "bytes", "object", "Evil", "EvilHash", "[]", "()", "{}",
          "(9,9)", "(1,)", "(1,2,3,4)", "[[]]", "GraphSet", "uninit GraphSet", "raising1"]


def replaced(x):
    """(path, function of the argument and the bad value): every place inside the argument x
    (elements, keys, values, at every depth) where a bad value can stand, and every container
    in which one more can be"""
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        t = type(x)
        for i in range(len(x)):
            yield (i,), lambda y, b, i=i: t(list(y[:i]) + [b] + list(y[i + 1:]))
            for p, f in replaced(x[i]):
                yield (i,) + p, lambda y, b, i=i, f=f: t(list(y[:i]) + [f(y[i], b)] + list(y[i + 1:]))
        yield ("+",), lambda y, b: t(list(y) + [b])
    elif isinstance(x, (set, frozenset)):
        for i in range(len(x)):
            yield ("s", i), lambda y, b, i=i: type(x)([b if j == i else v for j, v in enumerate(sorted(y, key=repr))])
        yield ("s+",), lambda y, b: type(x)(list(y) + [b])
    elif isinstance(x, dict):
        for i, k in enumerate(x):
            yield ("key", i), lambda y, b, i=i: {b if j == i else k: v for j, (k, v) in enumerate(y.items())}
            yield ("value", i), lambda y, b, i=i: {k: b if j == i else v for j, (k, v) in enumerate(y.items())}
            for p, f in replaced(x[k]):
                yield ("value", i) + p, lambda y, b, i=i, f=f: {k: f(v, b) if j == i else v for j, (k, v) in enumerate(y.items())}
            if isinstance(k, tuple):
                for p, f in replaced(k):
                    yield ("key", i) + p, lambda y, b, i=i, f=f: {f(k, b) if j == i else k: v for j, (k, v) in enumerate(y.items())}
        yield ("key+",), lambda y, b: dict(list(y.items()) + [(b, next(iter(y.values()), 1))])


def inside(W, name, labels=LEAVES):
    """(argument position, label, producer) of the faults inside the valid arguments of a call"""
    for pos, v in enumerate(calls_spec(name)[2]):
        for path, f in replaced(v(W)):
            for label, prod in POOL:
                if label not in labels or not sane(name, label):
                    continue

                def make(W, v=v, f=f, prod=prod):
                    y = v(W)
                    return f(list(y) if isinstance(y, range) else y, prod(W))
                try:
                    make(W)
                except Exception:           # not hashable
                    continue
                yield pos, "%r: %s" % (path, label), make


def u_inside(ctx, name):
    W = World()
    before = W.snap()
    for pos, label, make in list(inside(W, name)):
        if attempt(ctx, W, name, calls_spec(name), {pos: (label, make)}, before):
            W = World()
            before = W.snap()


def calls_spec(name, cache={}):
    if not cache:
        cache.update(calls())
    return cache[name]


# ---- calls that must raise -------------------------------------------------
WORLDS = {"k4-": (EDGES, ARCS, [1, 2, 3, 4]),
          "str": ([("b", "a"), ("b", "c", -3), ("c", "a"), ("c", "d")], [("a", "b"), ("b", "c", 4.0), ("c", "b"), ("d", "c")], ["a", "b", "c", "d"]),
          "split": ([(1, 2), (3, 4)], [(2, 1), (4, 3)], [1, 2, 3, 4]),
          "one": ([(2, 1, 0.5)], [(2, 1)], [1, 2])}
ANY = Exception


def families(C):
    """receivers of a class in the current universe"""
    if C is setset:
        return {"some": setset([{1, 2}, {3}, set()]), "none": setset(), "unit": setset([set()]), "all": setset({})}
    elem = {GraphSet: GraphSet.universe, DiGraphSet: DiGraphSet.universe, VertexSetSet: VertexSetSet.universe, EdgeVertexSetSet: GraphSet.universe}[C]()
    e = elem[0][:2] if isinstance(elem[0], tuple) else elem[0]
    g = [e] if C is not EdgeVertexSetSet else [e, e[0], e[1]]
    return {"some": C([g, []]), "none": C(), "unit": C([[]]), "all": C({})}


def must_raise(tag):
    """(label, receiver class or None, expected exception, thunk(receiver)) for the current universe"""
    edges, arcs, verts = WORLDS[tag]
    out = []
    E0, A0, V0 = edges[0][:2], arcs[0][:2], verts[0]
    eds, ars = [e[:2] for e in edges], [a[:2] for a in arcs]
    for C, el, badels in ((setset, 1, [[1], {}]), (GraphSet, E0, [(V0, "nowhere"), ("no", "where"), (77, 78), [77, 78]]), (DiGraphSet, A0, [(V0, "nowhere"), ("no", "where"), (77, 78)]),
                          (VertexSetSet, V0, ["nowhere", 77, (1, 2, 3)]), (EdgeVertexSetSet, E0, ["nowhere", 77, ("no", "where")])):
        nm = C.__name__
        univ = {setset: [1, 2, 3, "x"], GraphSet: eds, DiGraphSet: ars, VertexSetSet: verts, EdgeVertexSetSet: eds + verts}[C]

        def R(label, exc, f, C=C):
            out.append((nm_ + "." + label, C, exc, f))
        nm_ = nm
        for op in FAMILY_OPS + DUNDER:
            if not hasattr(C, op):
                continue
            for bad in (None, 5, 1.5, object(), "zz", [5]):
                if op.endswith(("supersets", "supergraphs")) and C is setset:
                    continue                    # an element is allowed
                if op.startswith("__"):
                    sym = {"__or__": "|", "__and__": "&", "__sub__": "-", "__xor__": "^", "__truediv__": "/", "__mod__": "%", "__le__": "<=", "__lt__": "<", "__ge__": ">=", "__gt__": ">"}
                    if op in sym:
                        R("%s(%r)" % (op, bad), ANY, lambda r, bad=bad, f=eval("lambda a, b: a %s b" % sym[op]): f(r, bad))
                else:
                    R("%s(%r)" % (op, bad), ANY, lambda r, op=op, bad=bad: getattr(r, op)(bad))
            if op in ("union", "intersection", "difference", "symmetric_difference", "update", "intersection_update", "difference_update", "symmetric_difference_update"):
                R("%s(ok, 5)" % op, ANY, lambda r, op=op, C=C: getattr(r, op)(C([]), 5))
        for op in ("quotient", "remainder", "quotient_update", "remainder_update") if C is not EdgeVertexSetSet else ():
            R("%s(empty)" % op, ZeroDivisionError, lambda r, op=op, C=C: getattr(r, op)(C()))
        R("/empty", ZeroDivisionError if C is not EdgeVertexSetSet else ANY, lambda r, C=C: r / C())
        R("%empty", ZeroDivisionError if C is not EdgeVertexSetSet else ANY, lambda r, C=C: r % C())
        for op in ("smaller", "larger", "set_size", "graph_size", "len"):
            if hasattr(C, op):
                for bad in (-1, 1.5, "2", None, [2], 2 ** 31, 10 ** 30) if op != "len" else (1.5, "2", [2], 2 ** 31, 10 ** 30):
                    R("%s(%r)" % (op, bad), ANY, lambda r, op=op, bad=bad: getattr(r, op)(bad))
        for bad in badels:
            b = "(%r)" % (bad,)
            if C is setset:
                for op in ("add", "remove", "discard", "flip", "__contains__"):
                    R(op + b, TypeError, lambda r, op=op, bad=bad: getattr(r, op)(bad))
                R("()" + b, TypeError, lambda r, bad=bad: setset([[1, bad]]))
                continue
            g2 = [el, bad]
            for op in ("add", "remove", "discard", "flip", "including", "excluding", "included", "__contains__"):
                if not hasattr(C, op):
                    continue
                if not isinstance(bad, list):        # a list stands for a graph
                    if not (C is EdgeVertexSetSet and op == "add"):
                        R(op + b, KeyError if C is not EdgeVertexSetSet or not isinstance(bad, tuple) else ANY, lambda r, op=op, bad=bad: getattr(r, op)(bad))
                if op in ("add", "remove", "discard", "including", "excluding", "included", "__contains__"):
                    R(op + "([ok, %r])" % (bad,), KeyError, lambda r, op=op, g2=g2: getattr(r, op)(g2))
            R("([[ok], [ok, %r]])" % (bad,), KeyError, lambda r, C=C, el=el, g2=g2: C([[el], g2]) if C is not EdgeVertexSetSet else C([[], g2]))
            if C is not EdgeVertexSetSet:
                R("({include: [%r]})" % (bad,), KeyError, lambda r, C=C, bad=bad: C({"include": [bad]}))
                R("({exclude: [ok, %r]})" % (bad,), KeyError, lambda r, C=C, g2=g2: C({"exclude": g2}))
            for op in ("cost_le", "cost_ge", "cost_eq"):
                if hasattr(C, op) and not isinstance(bad, list):
                    R(op + "unknown" + b, KeyError, lambda r, op=op, bad=bad, univ=univ: getattr(r, op)(dict({e: 1 for e in univ}, **{}) | {bad: 1}, 3))
            if not isinstance(bad, list):
                R("probability unknown" + b, KeyError, lambda r, bad=bad, univ=univ: r.probability({e: .5 for e in univ} | {bad: .5}))
        for bad in (5, 1.5, "zz" if C is not setset else 7, object(), {"inclde": [el]}, {"include": [el], "exclude": [el]}, {5: [el]}, {"include": [el], "excluded": []}, {"include": 5}, [5], [[el], None]):
            R("(%r)" % (bad,), ANY, lambda r, C=C, bad=bad: C(bad))
        for op in ("add", "remove", "discard"):
            if C is not setset:
                for bad in (None, 1.5):
                    R("%s(%r)" % (op, bad), ANY, lambda r, op=op, bad=bad: getattr(r, op)(bad))
        if len(univ) > 1:
            for bad, exc in (({univ[0]: 1}, AssertionError), ({}, AssertionError)):
                for op in ("cost_le", "cost_ge", "cost_eq"):
                    if hasattr(C, op):
                        R("%s(%r)" % (op, bad), exc, lambda r, op=op, bad=bad: getattr(r, op)(bad, 3))
                R("probability(%r)" % (bad,), ANY, lambda r, bad=bad: r.probability(bad))
        for k, e in enumerate(univ):
            for bad in (2 ** 31, -2 ** 31 - 1, 10 ** 30, 1.5, "1", None, [1]):
                for op in ("cost_le", "cost_ge", "cost_eq"):
                    if hasattr(C, op):
                        exc = AssertionError if isinstance(bad, int) else ANY
                        R("%s(%d: %r)" % (op, k, bad), exc, lambda r, op=op, bad=bad, e=e, univ=univ: getattr(r, op)(dict({x: 1 for x in univ}) | {e: bad}, 3))
            for bad in (-.1, 1.1, math.nan, math.inf, -math.inf, "1", None, [1], 10 ** 400):
                R("probability(%d: %r)" % (k, bad), ANY, lambda r, bad=bad, e=e, univ=univ: r.probability({x: .5 for x in univ} | {e: bad}))
            for bad in ("1", None, [1]):
                for op in ("min_iter", "max_iter"):
                    R("%s(%d: %r)" % (op, k, bad), ANY, lambda r, op=op, bad=bad, e=e, univ=univ: [0 for _ in getattr(r, op)({x: 1 for x in univ} | {e: bad})])
        for bad in (1.5, "1", None, [1], 10 ** 30):
            for op in ("cost_le", "cost_ge", "cost_eq"):
                if hasattr(C, op):
                    R("%s(.., %r)" % (op, bad), ANY, lambda r, op=op, bad=bad, univ=univ: getattr(r, op)({x: 1 for x in univ}, bad))
        for bad in (None, 5, "", "garbage", "2 1 B T", "2 1 B X\n.\n", "2 1 B 8\n.\n", "B", "B B\n.\n", "2 1 B T\n2 1 T B\n.\n", "2 0 B T\n.\n", "2 -1 B T\n.\n",
                    "4 1 B T\n2 2 B 4\n.\n", "2 70000 B T\n.\n", "2 1 B\n.\n", "x 1 B T\n.\n", ".\n"):
            R("loads(%r)" % (bad,), ANY, lambda r, C=C, bad=bad: C.loads(bad))
            R("load(%r)" % (bad,), ANY, lambda r, C=C, bad=bad: C.load(io.StringIO(bad) if isinstance(bad, str) else 9999 if bad == 5 else bad))   # 5 may be an open file
        R("load(no read)", ANY, lambda r, C=C: C.load(object()))
        R("dump(9999)", ANY, lambda r: r.dump(9999))
        R("dump(None)", ANY, lambda r: r.dump(None))
    # empty families
    for C in (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet):
        out.append((C.__name__ + ".pop on empty", None, KeyError, lambda r, C=C: C().pop()))
        out.append((C.__name__ + ".choice on empty", None, KeyError, lambda r, C=C: C().choice()))

    def S(label, f, exc=ANY):
        out.append((label, None, exc, lambda r, f=f: f()))
    G, D, V = GraphSet, DiGraphSet, VertexSetSet
    for bv in ("nowhere", 77, (V0, "x")):
        t = "(unknown vertex %r)" % (bv,)
        S("graphs groups" + t, lambda: G.graphs(vertex_groups=[[V0, bv]]), KeyError)
        S("graphs groups 2" + t, lambda: G.graphs(vertex_groups=[[V0], [bv]]), KeyError)
        S("graphs degree" + t, lambda: G.graphs(degree_constraints={V0: 1, bv: 1}), KeyError)
        S("connected_components" + t, lambda: G.connected_components([V0, bv]), KeyError)
        S("trees" + t, lambda: G.trees(bv), KeyError)
        S("spanning trees" + t, lambda: G.trees(bv, True), KeyError)
        S("forests" + t, lambda: G.forests([V0, bv]), KeyError)
        S("forests span" + t, lambda: G.forests([bv], True), KeyError)
        S("paths" + t, lambda: G.paths(V0, bv), KeyError)
        S("paths 2" + t, lambda: G.paths(bv, V0), KeyError)
        S("paths h" + t, lambda: G.paths(bv, V0, True), KeyError)
        S("b_matchings" + t, lambda: G.b_matchings({v: 1 for v in verts} | {bv: 1}), KeyError)
        S("f_factors" + t, lambda: G.f_factors({v: 1 for v in verts} | {bv: 1}), KeyError)
        for n in ("steiner_subgraphs", "steiner_trees", "steiner_cycles", "steiner_paths"):
            S(n + t, lambda n=n: getattr(G, n)([V0, bv]))
        S("weighted_induced" + t, lambda: G.weighted_induced_graphs({v: 1 for v in verts} | {bv: 1}, 0, 5))
        S("balanced" + t, lambda: G.balanced_partitions({v: 1 for v in verts} | {bv: 1}, 2.0))
        S("reliability" + t, lambda: G.reliability({e: .5 for e in eds}, [V0, bv]), KeyError)
        S("directed_st_paths" + t, lambda: D.directed_st_paths(V0, bv))
        S("directed_st_paths 2" + t, lambda: D.directed_st_paths(bv, V0))
        S("rooted_forests" + t, lambda: D.rooted_forests([V0, bv]))
        S("rooted_trees" + t, lambda: D.rooted_trees(bv))
        S("digraphs in" + t, lambda: D.graphs(in_degree_constraints={bv: 1}), KeyError)
        S("digraphs out" + t, lambda: D.graphs(out_degree_constraints={V0: 1, bv: 1}), KeyError)
        for C, el in ((G, E0), (D, A0)):
            for op in ("including", "excluding"):
                if not isinstance(bv, tuple):
                    S(C.__name__ + op + t, lambda C=C, op=op: getattr(C({}), op)(bv), KeyError)
        for n in ("independent_sets", "dominating_sets", "vertex_covers", "cliques"):
            S(n + t, lambda n=n: getattr(V, n)([(V0, bv)]))
    for be in (("no", "where"), (77, 78), (V0, "nowhere")):
        t = "(unknown edge %r)" % (be,)
        S("reliability" + t, lambda: G.reliability({e: .5 for e in eds} | {be: .5}, [V0]), KeyError)
        S("linear" + t, lambda: G.graphs(linear_constraints=[([be], (0, 1))]))
        S("linear 2" + t, lambda: G.graphs(linear_constraints=[([E0 + (2,), be + (1,)], (0, 1))]))
        S("to_vertexset no" + t, lambda: VertexSetSet([[be]]))
    for n in ("independent_sets", "dominating_sets", "vertex_covers", "cliques"):
        for bad in ([(V0,)], [5], [None], [(V0, V0, V0, V0)], 5, [("no", "where")]):
            S("%s(%r)" % (n, bad), lambda n=n, bad=bad: getattr(V, n)(bad))
    fam_args = {"connected_components": ([V0],), "cliques": (2,), "bicliques": (1, 1), "trees": (), "forests": ([V0],), "cycles": (), "paths": (V0, verts[1]), "matchings": (), "perfect_matchings": (), "k_matchings": (1,),
                "b_matchings": ({v: 1 for v in verts},), "k_factors": (1,), "f_factors": ({v: 1 for v in verts},), "regular_graphs": (), "bipartite_graphs": (), "regular_bipartite_graphs": (),
                "steiner_subgraphs": ([V0],), "steiner_trees": ([V0],), "steiner_cycles": ([V0],), "steiner_paths": ([V0],), "degree_distribution_graphs": ({1: 2}, False), "letter_P_graphs": (), "graphs": ()}
    others = [5, "zz", [], object(), ("VertexSetSet",), ("DiGraphSet",), ("EdgeVertexSetSet",), ("setset",)]
    mk = {"VertexSetSet": lambda: VertexSetSet({}), "DiGraphSet": lambda: DiGraphSet({}), "EdgeVertexSetSet": lambda: GraphSet({}).to_edgevertexsetset(), "setset": lambda: setset({}), "GraphSet": lambda: GraphSet({})}
    for n, a in fam_args.items():
        for o in others:
            S("%s(graphset=%r)" % (n, o), lambda n=n, a=a, o=o: getattr(G, n)(*a, graphset=mk[o[0]]() if isinstance(o, tuple) else o))
    for n, a in {"directed_cycles": (), "directed_hamiltonian_cycles": (), "directed_st_paths": (V0, verts[1]), "rooted_forests": (), "rooted_trees": (V0,), "graphs": ()}.items():
        for o in [5, "zz", [], ("VertexSetSet",), ("GraphSet",), ("EdgeVertexSetSet",), ("setset",)]:
            S("D.%s(graphset=%r)" % (n, o), lambda n=n, a=a, o=o: getattr(D, n)(*a, graphset=mk[o[0]]() if isinstance(o, tuple) else o))
    for bad in (None, "x", 1.5, [1]):
        S("cliques(%r)" % (bad,), lambda: G.cliques(bad))
        S("bicliques(%r)" % (bad,), lambda: G.bicliques(bad, bad))
        S("k_matchings(%r)" % (bad,), lambda: G.k_matchings(bad))
        S("k_factors(%r)" % (bad,), lambda: G.k_factors(bad))
        if bad is not None:
            S("regular_graphs(%r)" % (bad,), lambda: G.regular_graphs(bad))
            S("num_edges %r" % (bad,), lambda: G.graphs(num_edges=bad) if bad != [1] else G.graphs(num_edges=["a"]))
        S("degree %r" % (bad,), lambda: G.graphs(degree_constraints={V0: bad} if bad != [1] else {V0: ["a"]}))
        S("in degree %r" % (bad,), lambda: D.graphs(in_degree_constraints={V0: bad} if bad != [1] else {V0: ["a"]}))
        S("partitions(%r)" % (bad,), lambda: G.partitions(bad, 2))
        S("partitions(.., %r)" % (bad,), lambda: G.partitions(1, bad) if bad is not None else G.partitions(1, "y"))
        S("deg dist %r" % (bad,), lambda: G.degree_distribution_graphs({1: bad}, False))
        S("deg dist key %r" % (bad,), lambda: G.degree_distribution_graphs({str(bad): 1}, False))
        S("weighted %r" % (bad,), lambda: G.weighted_induced_graphs({v: bad for v in verts}, 0, 5))
        S("balanced %r" % (bad,), lambda: G.balanced_partitions({v: bad for v in verts}, 2.0))
        S("reliability p=%r" % (bad,), lambda: G.reliability({e: bad if bad != 1.5 else "q" for e in eds}, verts[:2]))
    S("bicliques(1, 2)", lambda: G.bicliques(1, 2), TypeError)
    S("partitions(3, 1)", lambda: G.partitions(3, 1))
    S("partitions(-1, 1)", lambda: G.partitions(-1, 1))
    S("balanced_partitions lb > ub", lambda: G.balanced_partitions({v: 1 for v in verts}, 2.0, 5, 2))
    S("balanced_partitions ratio", lambda: G.balanced_partitions({v: 1 for v in verts}, 0.5))
    S("weighted lower > upper", lambda: G.weighted_induced_graphs({v: 1 for v in verts}, 5, 2), TypeError)
    S("weighted not dict", lambda: G.weighted_induced_graphs(5, 0, 2))
    S("chordal_graphs", lambda: G.chordal_graphs(), TypeError)
    S("deg dist negative", lambda: G.degree_distribution_graphs({-1: 2}, False))
    S("VertexSetSet.set_universe()", lambda: V.set_universe())
    a, b = verts[0], verts[1]
    for bad in ([], None, 5, "zz", [5], [(a,)], [None], [(a, [])], [([], a)], [(a, b), (a, b)], [(a, b), (b, a)], [(a, b), 5], object(), [{}], [{a: b}]):
        S("GraphSet.set_universe(%r)" % (bad,), lambda bad=bad: G.set_universe(bad))
        S("Universe.set_universe(%r)" % (bad,), lambda bad=bad: Universe.set_universe(bad))
        if bad != [(a, b), (b, a)] and bad != []:
            S("DiGraphSet.set_universe(%r)" % (bad,), lambda bad=bad: D.set_universe(bad))
    for bad in ("bsf", "", 5, None, [], "BFS"):
        S("GraphSet traversal %r" % (bad,), lambda bad=bad: G.set_universe([(1, 5), (5, 2)], traversal=bad))
        S("DiGraphSet traversal %r" % (bad,), lambda bad=bad: D.set_universe([(1, 5), (5, 2)], traversal=bad))
    for bad in ("nowhere", 77, []):
        S("GraphSet source %r" % (bad,), lambda bad=bad: G.set_universe([(1, 5), (5, 2)], source=bad))
        S("DiGraphSet source %r" % (bad,), lambda bad=bad: D.set_universe([(1, 5), (5, 2)], source=bad))
    for bad in ([1, 1], [1, "x", 1], [[]], 5, None, [1, {}]):
        S("setset.set_universe(%r)" % (bad,), lambda bad=bad: setset.set_universe(bad))
    return out


def u_must(ctx, tag):
    def fresh():
        W = World()
        GraphSet.set_universe(WORLDS[tag][0], traversal="as-is")
        DiGraphSet.set_universe(WORLDS[tag][1], traversal="as-is")
        W.o = {}
        for C in (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet):
            for k, f in families(C).items():
                W.o[C.__name__ + k] = f
        return W
    W = fresh()
    before = W.snap()
    for label, C, exc, f in must_raise(tag):
        for kind in (("some", "none", "unit", "all") if C else ("",)):
            ctx.case((tag, label, kind))
            try:
                r = f(W.o[C.__name__ + kind] if C else None)
            except Exception as e:
                ctx.nt()
                if not isinstance(e, exc):
                    ctx.fail("wrong exception type", exc.__name__, repr(e))
            else:
                ctx.fail("an invalid call was accepted", exc.__name__, repr(r)[:200])
                W = fresh()
            after = W.snap()
            if after != before:
                ctx.fail("a refused call changed the state", before, after)


def u_overflow(ctx):
    """len() of families too big for Py_ssize_t"""
    n = 66
    GraphSet.set_universe([(i, i + 1) for i in range(n)], traversal="as-is")
    DiGraphSet.set_universe([(i, i + 1) for i in range(n)], traversal="as-is")
    setset.set_universe(list(range(n)))
    for C in (GraphSet, DiGraphSet, VertexSetSet, setset, EdgeVertexSetSet):
        for k in range(n + 1):
            x = C({}) if C in (setset, EdgeVertexSetSet) else C({"include": [u if not isinstance(u, tuple) else u[:2] for u in C.universe()[:k]]})
            if C in (setset, EdgeVertexSetSet) and k:
                continue
            m = x.len()
            ctx.case((C.__name__, k))
            try:
                got = len(x)
            except OverflowError:
                ctx.nt()
                if m < 2 ** 63:
                    ctx.fail("overflow reported for a length that fits", m, None)
            else:
                ctx.eq(got, m, "len")


def units(tier):
    th = tier == "thorough"
    labels = [p[0] for p in POOL] if th else sorted(set(SMALL + [p[0] for p in POOL][::2]))
    us = [Unit('must/' + t, u_must, (t,), seq=True) for t in WORLDS] + [Unit('overflow', u_overflow)]
    for name, spec in calls().items():
        us.append(Unit("single/" + name, u_single, (name,), seq=True))
        if spec[2]:
            us.append(Unit("inside/" + name, u_inside, (name,), seq=True))
        if len(spec[2]) > 1:
            us.append(Unit("double/" + name, u_double, (name, labels), seq=True))
    return us
