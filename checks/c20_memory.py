"""C20: memory safety.

The real code, built with AddressSanitizer, bounds, null and object checks and
libstdc++'s assertions, Python's objects allocated by malloc and therefore also
checked: every call, every refused call, every callback the library makes into
Python answered by every hostile action, and every history to a depth.  The
first bad access ends the process and fails the check."""
import gc, hashlib, os, subprocess, sys
from itertools import permutations, product
import hooks, ops
from vrun import Unit
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet, GraphClass
from graphillion.edgevertex_setset import EdgeVertexSetSet
from graphillion.universe import Universe
import c19_refused as c19

PROPERTY, LEVEL = "C20", "exploration"
VARIANT = "asan"
TECHNIQUE = "exhaustive enumeration of calls, faults, re-entrant callbacks, collections at every node request and event histories on the real code under AddressSanitizer and bounds checking"
NOTE = ("Calls: the 553-call alphabet with operands released before, during and after, and with a garbage collection at every node request; all single faults of C19; every callback "
        "(iteration, hashing, comparison, conversion to a number, length, lookup) of every public callable answered by nine hostile actions; stale and uninitialized receivers; malformed dumps; "
        "universes at sizes around powers of two; real OpenMP threads. Reads of uninitialized heap memory are sought by comparing runs with different fill bytes.")
RULE = "one evaluation = one call or history executed without a report of the sanitizers and without the process ending; non-trivial if objects were released, a collection ran, a callback acted or an error was raised on the way"
ASSUMPTIONS = ["code inside the Python interpreter is not instrumented; its objects are allocated by the checked allocator", "uninitialized stack memory is not checked",
               "what a call returns after a callback changed its operands is not judged"]
BOUNDS = {"quick": "553 calls x 5 lifetimes x 2 collection schedules; about 18000 single faults; callbacks: every callable, callback indices to 16, 9 actions; histories to depth 2",
          "thorough": "also double faults, callback indices to 200 and histories to depth 3"}
TIMEOUT = {"quick": 400, "thorough": 3600}
CLASSES = (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet)


def swallow(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def use(x):
    """touches everything of a result"""
    swallow(lambda: (x.len(), x.dumps(), bool(x)))
    swallow(lambda: [0 for _ in zip(range(40), x)])
    swallow(repr, x)


# ---- the alphabet -----------------------------------------------------------
def u_ops(ctx, part, parts, every):
    w = ops.World()
    for op in ops.alphabet()[part::parts]:
        name, kind, names, fn = op
        if every and hooks.gc_every is not None:
            hooks.gc_every.value = 1
        for life in ("kept", "operands released first", "result released first", "copies", "collected"):
            ctx.case((name, life, "collecting always" if every else ""), True)
            o = ops.make(w, op)
            if life == "copies":
                o = [x.copy() for x in o]
            r = fn(*o)
            if life == "operands released first":
                del o
                hooks.gc()
                swallow(ops.canon, r)
            elif life == "result released first":
                it = iter(r) if hasattr(r, "__iter__") else None
                del r
                hooks.gc()
                for _ in it or ():
                    pass
                for x in o:
                    use(x)
            elif life == "collected":
                hooks.gc()
                gc.collect()
                use(r)
                hooks.gc()
                swallow(ops.canon, r)
            else:
                swallow(ops.canon, r)
            o = r = it = None
        if hooks.gc_every is not None:
            hooks.gc_every.value = 0


# ---- stale and uninitialized receivers ------------------------------------------
def universes(k):
    if k == "small":
        setset.set_universe([2, 1])
        GraphSet.set_universe([(2, 1)])
        DiGraphSet.set_universe([(2, 3)])
    elif k == "big":
        setset.set_universe(list(range(1, 11)))
        es = [(i, j) for i in range(1, 6) for j in range(i + 1, 6)] + [(5, 6)]
        GraphSet.set_universe(es)
        DiGraphSet.set_universe(es + [(2, 1), (3, 1), (4, 2)])
    elif k == "other":
        setset.set_universe(list("abcdefg"))
        GraphSet.set_universe([("a", "b"), ("b", "c"), ("c", "d")])
        DiGraphSet.set_universe([("a", "b"), ("b", "a")])
    elif k == "vertices":
        VertexSetSet.set_universe([1, 7])


def u_stale(ctx, to, part, parts):
    w = ops.World()
    for op in ops.alphabet()[part::parts]:
        name, kind, names, fn = op
        for when in ("before the call", "before the result is used", "while an iterator runs"):
            ctx.case((name, "universes become", to, when), True)
            w.register()
            o = ops.make(w, op)
            if when == "before the call":
                universes(to)
                use(swallow(fn, *o))
            else:
                r = fn(*o)
                it = iter(r) if hasattr(r, "__iter__") else None
                if when == "while an iterator runs" and it is not None:
                    swallow(next, it, None)
                universes(to)
                swallow(lambda: [0 for _ in zip(range(50), it or ())])
                use(r)
            for x in o:
                use(x)


def u_uninit(ctx, part, parts):
    C = dict(zip("sgdve", CLASSES))
    W = c19.World()
    for name, (key, fn, valid) in list(c19.calls().items())[part::parts]:
        if not key:
            continue
        for how in ("uninitialized", "failed initialization", "twice initialized", "type only"):
            ctx.case((name, how), True)
            cls = C[key[0]]
            x = cls.__new__(cls)
            if how == "failed initialization":
                swallow(x.__init__, [[5], 5])
            elif how == "twice initialized":
                swallow(x.__init__)
                swallow(x.__init__, {})
            args = [swallow(p, W) for p in valid]
            swallow(fn, x, *args)
            use(x)
            if how == "type only":
                for m in dir(cls):
                    f = getattr(cls, m)
                    if callable(f) and m not in ("__class__", "__init_subclass__", "set_universe", "show_messages") and not isinstance(f, type):
                        swallow(f, x)
            del x
            if name.endswith("set_universe") or name.endswith("re-init"):
                W = c19.World()


# ---- faults ---------------------------------------------------------------------
def u_faults(ctx, name, pairs):
    c19.u_single(ctx, name)
    if pairs and len(c19.calls()[name][2]) > 1:
        c19.u_double(ctx, name, sorted(set(c19.SMALL)))


# ---- callbacks ------------------------------------------------------------------
class CB:
    n = at = -1
    action = None
    live = []


def tick():
    CB.n += 1
    if CB.n == CB.at and CB.action:
        a, CB.action = CB.action, None
        a()


class HInt(int):
    def __hash__(self):
        tick()
        return int.__hash__(self)

    def __eq__(self, o):
        tick()
        return int.__eq__(self, o)

    def __index__(self):
        tick()
        return int(str(int.__repr__(self)))

    def __float__(self):
        tick()
        return float(int.__repr__(self))

    def __repr__(self):
        return int.__repr__(self)


class HStr(str):
    def __hash__(self):
        tick()
        return str.__hash__(self)

    def __eq__(self, o):
        tick()
        return str.__eq__(self, o)


class HNum:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        tick()
        return float(self.v)

    def __index__(self):
        tick()
        return int(self.v)


class HFloat(float):
    def __float__(self):
        tick()
        return float.__add__(self, 0.0)


def ticking(base, names):
    def mk(n):
        def f(self, *a):
            tick()
            return getattr(base, n)(self, *a)
        return f
    return type("H" + base.__name__, (base,), {n: mk(n) for n in names})


HList = ticking(list, ["__len__", "__getitem__"])
HList.__iter__ = lambda self: counted(list.__iter__(self))
HSet = ticking(set, ["__len__", "__contains__"])
HSet.__iter__ = lambda self: counted(set.__iter__(self))
HDict = ticking(dict, ["__len__", "__getitem__", "__contains__", "keys", "get", "values"])
HDict.__iter__ = lambda self: counted(dict.__iter__(self))
HDict.items = lambda self: counted(iter(list(dict.items(self))))
HDict.copy = lambda self: HDict(self)


def counted(it):
    for x in it:
        tick()
        yield x
    tick()


class Dies:
    """acts when it is released"""
    def __del__(self):
        tick()


def wrap(x, mode):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return HInt(x)
    if isinstance(x, float):
        return HFloat(x) if mode else HNum(x)
    if isinstance(x, str):
        return HStr(x)
    if isinstance(x, tuple):
        return tuple(wrap(y, mode) for y in x)
    if isinstance(x, range):
        return HList(HInt(i) for i in x) if mode else x
    if isinstance(x, dict):
        r = HDict()
        for k, v in dict.items(x):
            dict.__setitem__(r, k if isinstance(k, str) else wrap(k, mode), wrap(v, mode))
        CB.live.append(r)
        return r
    if isinstance(x, (set, frozenset)):
        r = HSet(wrap(y, mode) for y in x)
        CB.live.append(r)
        return r
    if isinstance(x, list):
        l = HList(wrap(y, mode) for y in x)
        CB.live.append(l)
        return counted(list.__iter__(l)) if mode == 2 else l
    return x


def actions(W, key):
    recv = W.o.get(key) if key else None

    def fam():
        for x in W.o.values():
            swallow(x.clear)

    def reinit():
        for x in list(W.o.values()):
            swallow(x.__init__, {})

    def drop():
        W.o.clear()
        gc.collect()
        hooks.gc()

    def empty():
        for c in CB.live:
            type(c).__mro__[1].clear(c)

    def grow():
        for c in CB.live:
            if isinstance(c, list):
                list.extend(c, list(list.__iter__(c)))
            elif isinstance(c, dict):
                for i in range(50):
                    dict.__setitem__(c, "new%d" % i, 1)
            else:
                set.update(c, range(100, 150))

    def boom():
        raise RuntimeError("callback")

    def more():
        a = GraphSet.trees() if swallow(GraphSet.universe) else None
        b = setset({}).minimal()
        swallow(lambda: setset([{1, 2}]).min_iter({1: 2}))
        del a, b
        hooks.gc()
    return [("operands cleared", fam), ("operands initialized again", reinit), ("operands dropped", drop), ("containers emptied", empty), ("containers grown", grow), ("small universes", lambda: universes("small")),
            ("other universes", lambda: universes("other")), ("raise", boom), ("other calls and a collection", more)]


def u_callbacks(ctx, name, limit):
    key, fn, valid = c19.calls()[name]
    for mode in (0, 1, 2):
        W = c19.World()
        CB.live = []
        CB.n, CB.at, CB.action = -1, -1, None
        args = [wrap(p(W), mode) for p in valid]
        CB.n = -1
        swallow(fn, W.o[key] if key else None, *args)
        total = CB.n + 1
        idx = range(total) if total <= limit else sorted(set(list(range(limit // 2)) + [limit // 2 + i * (total - limit // 2) // (limit // 2) for i in range(limit // 2)]))
        for at in idx:
            for k in range(9):
                W = c19.World()
                CB.live = []
                CB.at, CB.action = -1, None
                label, act = actions(W, key)[k]
                ctx.case((name, "arguments", ("objects", "numbers", "iterators")[mode], "callback", at, label), True)
                args = [wrap(p(W), mode) for p in valid]
                recv = W.o[key] if key else None
                CB.n, CB.at, CB.action = -1, at, act
                r = swallow(fn, recv, *args)
                CB.at, CB.action = -1, None
                if recv is not None:
                    use(recv)
                if isinstance(r, CLASSES):
                    use(r)
                r = recv = args = None
                for x in W.o.values():
                    swallow(x.dumps)
                ctx.transitions += 1


# ---- iterators ----------------------------------------------------------------
def u_iterators(ctx, part):
    w = ops.World()
    fams = [("setset", lambda: w.s("A")), ("GraphSet", lambda: w.g("A")), ("DiGraphSet", lambda: w.d("C")), ("VertexSetSet", lambda: w.v("B")), ("EdgeVertexSetSet", lambda: w.e("A")), ("empty", setset), ("one", lambda: setset([set()]))]
    its = [("iter", iter), ("rand_iter", lambda x: x.rand_iter()), ("min_iter", lambda x: x.min_iter()), ("max_iter", lambda x: x.max_iter()), ("choice", lambda x: iter([swallow(x.choice)]))]
    def init(s):
        s[0].__init__([[]])
    events = [("drop family", lambda s: s.__setitem__(0, None)), ("clear", lambda s: s[0] and s[0].clear()), ("re-init", lambda s: s[0] and s[0].__init__()), ("collect", lambda s: hooks.gc()),
              ("small", lambda s: universes("small")), ("other", lambda s: universes("other")), ("second iterator", lambda s: s.append(iter(s[0]) if s[0] is not None else None)), ("pop", lambda s: swallow(s[0].pop) if s[0] is not None else None),
              ("add", lambda s: swallow(s[0].update, s[0].copy()) if s[0] is not None else None)]
    for fname, mk in fams[part:part + 1]:
        for iname, it in its:
            for stop in range(4):
                for e1, f1 in events:
                    for e2, f2 in events:
                        w.register()
                        s = [mk()]
                        ctx.case((fname, iname, "after", stop, e1, e2), True)
                        j = it(s[0])
                        for _ in range(stop):
                            swallow(next, j, None)
                        swallow(f1, s)
                        swallow(next, j, None)
                        swallow(f2, s)
                        swallow(lambda: [0 for _ in zip(range(9), j)])
                        swallow(next, j, None)
                        if s[0] is not None:
                            use(s[0])
                        del s[0], j


# ---- dumps -----------------------------------------------------------------------
def u_dumps(ctx):
    w = ops.World()
    tok = ["", "B", "T", ".", "0", "1", "2", "-1", "6", "300", "65536", "2147483647", "4294967296", "99999999999999999999", "x", "\0", "-9223372036854775808", "1e5"]
    for C, x in ((setset, w.s("A")), (GraphSet, w.g("B")), (DiGraphSet, w.d("A")), (VertexSetSet, w.v("C")), (EdgeVertexSetSet, w.e("B"))):
        d = x.dumps()
        lines = d.split("\n")
        texts = [d[:k] for k in range(len(d))] + [d[k:] for k in range(1, len(d))]
        for i, l in enumerate(lines):
            t = l.split(" ")
            for j in range(len(t)):
                texts += ["\n".join(lines[:i] + [" ".join(t[:j] + [v] + t[j + 1:])] + lines[i + 1:]) for v in tok + t]
            texts += ["\n".join(lines[:i] + lines[i + 1:]), "\n".join(lines[:i] + [l, l] + lines[i + 1:]), "\n".join(lines[:i] + lines[i:][::-1])]
        for t in texts:
            ctx.case((C.__name__, t), True)
            y = swallow(C.loads, t)
            if y is not None:
                use(y)
                swallow(lambda: (y | x).len())
                swallow(lambda: y.minimal().len())


# ---- universes of unusual sizes ----------------------------------------------------
def u_sizes(ctx, n, shape, th):
    GraphSet.show_messages(False)
    es = {"path": [(i, i + 1) for i in range(n)], "star": [(0, i) for i in range(1, n + 1)], "cycle": [(i, (i + 1) % n) for i in range(n)],
          "ladder": sorted([(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n, 2)])}[shape]
    hub = 0
    vs = sorted({v for e in es for v in e})
    for trav in ("as-is", "bfs", "dfs") if th or n < 60 else ("as-is",):
        ctx.case((shape, n, trav), True)
        GraphSet.set_universe(es, traversal=trav)
        DiGraphSet.set_universe([(a, b) for a, b in es], traversal="as-is")
        G, V, D = GraphSet, VertexSetSet, DiGraphSet
        last = vs[-1]
        for k, f in enumerate([lambda: G.graphs(degree_constraints={hub: n}), lambda: G.graphs(degree_constraints={hub: range(0, n + 1)}), lambda: G.graphs(num_edges=n), lambda: G.graphs(num_edges=range(n - 1, n + 5)),
                  lambda: G.graphs(vertex_groups=[[hub, last]]), lambda: G.trees(hub, True), lambda: G.paths(hub, last), lambda: G.cycles(), lambda: G.matchings(), lambda: G.regular_graphs(1), lambda: G.k_matchings(300),
                  lambda: G.b_matchings({v: 300 for v in vs}), lambda: G.graphs(linear_constraints=[([e + (1,) for e in es], (0, 2))]), lambda: G.cliques(n), lambda: G.partitions(1, 2), lambda: G.steiner_trees([hub, last]),
                  lambda: G.degree_distribution_graphs({1: 2}, True) if n < 40 else None, lambda: G.letter_P_graphs(), lambda: G.balanced_partitions({v: 1 for v in vs}, 2.0, 0, 3 * n, 2) if n < 20 else None, lambda: G.induced_graphs() if shape != "ladder" or n < 20 else None,
                  lambda: V.independent_sets(es) if n < 70 else None, lambda: V.dominating_sets(es) if n < 70 else None, lambda: V.vertex_covers(es) if n < 70 else None, lambda: V({}).graph_size(1), lambda: D.directed_cycles(), lambda: D.directed_st_paths(hub, last),
                  lambda: D.rooted_trees(hub), lambda: D.rooted_forests([hub]), lambda: D.graphs(in_degree_constraints={v: 300 for v in vs}, out_degree_constraints={hub: n})]):
            ctx.case((shape, n, trav, k), True)
            r = swallow(f)
            if r is not None:
                swallow(r.len)
                swallow(lambda: [0 for _ in zip(range(5), r)])
                swallow(lambda: [0 for _ in zip(range(3), r.max_iter())])
                swallow(lambda: r.cost_le({e: 1 for e in G.universe()}, 2).len())
                swallow(lambda: r.smaller(2).len())
    setset.set_universe(range(n))
    x = setset([{0, n - 1}, set(range(n))])
    for f in (lambda: x.minimal(), lambda: x.hitting().len(), lambda: x.remove_add_some_elements().len(), lambda: x.add_some_element(), lambda: x.add_some_element(), lambda: list(x.max_iter()), lambda: x.cost_le({i: 2 ** 30 for i in range(n)}, -5), lambda: x.probability({i: .5 for i in range(n)}),
              lambda: list(x.rand_iter()), lambda: (~x).len(), lambda: setset({}).set_size(n - 1).len(), lambda: setset.loads(x.dumps())):
        swallow(f)


# ---- histories ------------------------------------------------------------------
def u_hist(ctx, first, depth):
    import c05_history as c05
    byname = {o[0]: o for o in ops.alphabet()}
    names = list(byname)
    k = 0
    for rest in product(c05.EVENTS, repeat=depth - 1):
        h = (c05.EVENTS[first],) + rest
        H = c05.Hist()
        ctx.case(h, True)
        for e in h:
            H.event(e)
            ctx.transitions += 1
            if e in ("other setset", "small setset", "big graph", "small graph", "grow setset"):
                H.event("register")
        for n in names[k % 29::29]:
            swallow(ops.run, H.w, byname[n])
        k += 1
        for x in H.held:
            if hasattr(x, "dumps"):
                use(x)
            else:
                swallow(list, x)


# ---- threads ----------------------------------------------------------------------
def u_threads(ctx, part, parts):
    """the real OpenMP runtime with four threads"""
    w = ops.World()
    A = [o for o in ops.alphabet() if o[0].startswith("enum.")][part::parts]
    for rnd in range(2):
        for op in A:
            ctx.case((op[0], "four threads", rnd), True)
            ops.run(w, op)
            if rnd:
                hooks.gc()


# ---- uninitialized memory -----------------------------------------------------------
PROBE = r"""
import sys, glob, zlib
sys.path[:0] = %r
import ops, hooks
if hooks.set_rand: hooks.set_rand(lambda: 0.5)
w = ops.World()
out = []
for op in ops.alphabet()[%d::%d]:
    r = ops.run(w, op)
    out.append((op[0], sorted(sorted(map(repr, s)) for s in r) if isinstance(r, frozenset) else r))
    hooks.gc()
import hashlib
for n, r in out:
    print(n, hashlib.md5(repr(r).encode()).hexdigest())
"""


def u_fill(ctx, part, parts):
    import _graphillion
    path = [os.path.dirname(_graphillion.__file__), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")]
    ref = None
    for fill in (0, 255, 190, 1, 127):
        o = os.environ.get("ASAN_OPTIONS", "") + ":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fill
        r = subprocess.run([sys.executable, "-c", PROBE % (path, part, parts)], env=dict(os.environ, ASAN_OPTIONS=o), capture_output=True, text=True)
        ctx.case(("new memory filled with", fill, part), True)
        if r.returncode:
            ctx.fail("the process ended", 0, (r.returncode, r.stderr[-3000:]))
        out = r.stdout.splitlines()
        ctx.evals += len(out)
        if ref is None:
            ref = out
        if out != ref:
            ctx.fail("the answers depend on the contents of new memory", [a for a, b in zip(ref, out) if a != b][:5], [b for a, b in zip(ref, out) if a != b][:5])


def units(tier):
    th = tier == "thorough"
    U = lambda *a, **k: Unit(*a, **dict(dict(seq=True, mem=0), **k))
    us = [U("ops/%s/%d" % (e, i), u_ops, (i, 16, e)) for e in (False, True) for i in range(16)]
    us += [U("stale/%s/%d" % (k, i), u_stale, (k, i, 4)) for k in ("small", "big", "other", "vertices") for i in range(4)]
    us += [U("uninit/%d" % i, u_uninit, (i, 4)) for i in range(4)]
    us += [U("fault/" + n, u_faults, (n, th)) for n in c19.calls()]
    us += [U("must/" + t, c19.u_must, (t,)) for t in (c19.WORLDS if th else ("k4-", "str"))]
    us += [U("callback/" + n, u_callbacks, (n, 200 if th else 16)) for n in c19.calls()]
    us += [U("dumps", u_dumps)]
    us += [U("sizes/%s/%d" % (s, n), u_sizes, (n, s, th)) for s in ("path", "star", "cycle", "ladder") for n in ((3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257) if th else (3, 16, 31, 32, 33, 64, 65, 128, 255, 256, 257))
           if s != "ladder" or n < 18]
    us += [U("iterators/%d" % i, u_iterators, (i,)) for i in range(7)]
    us += [U("hist/%d" % i, u_hist, (i, 3 if th else 2)) for i in range(12)]
    us += [Unit("threads/%d" % i, u_threads, (i, 4), threads=4, env={"OMP_NUM_THREADS": "4"}, mem=0) for i in range(4)]
    us += [U("fill/%d" % i, u_fill, (i, 8)) for i in range(8)]
    return us
