"""C22: storage is released with the objects.

Every call of the API, every call that raises and every sequence of events is
repeated after a warm-up; diagram nodes, Python memory blocks, C memory,
references to the caller's objects and file descriptors must not grow from
repetition to repetition.  All deletion orders of objects sharing nodes are
enumerated: the survivors stay intact and the table returns to its size."""
import ctypes, gc, glob, io, os, sys, tempfile
from itertools import permutations, product
import hooks, ops
from vrun import Unit
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet
import c19_refused as c19

PROPERTY, LEVEL = "C22", "exploration"
VARIANT = "hooks"
TECHNIQUE = "exhaustive enumeration of calls, refused calls, event histories and deletion orders on the real code, each repeated with exact storage accounting after a forced garbage collection"
NOTE = ("Every call of the 553-call alphabet, about 25000 calls with a wrong argument and 6000 calls that must raise are repeated; after a forced collection the node table, the number of "
        "Python blocks, malloc's bytes, the references of every vertex, edge and operand and the open descriptors must be what they were. All histories of 12 events to depth 3 (4), all "
        "deletion orders of 5 (6) objects and every abandonment point of every iterator likewise.")
RULE = "one evaluation = one repeated call, history or deletion order with the storage compared before and after; non-trivial if it allocated nodes or raised"
ASSUMPTIONS = ["variables of the decision diagrams are never returned: their number is bounded by the largest universe ever registered, and registering the same universes again makes none",
               "the library frees unreachable nodes lazily: storage is compared after a collection the hook forces", "growth is judged from the third to the sixth repetition, so that caches may fill first"]
BOUNDS = {"quick": "553 calls, single faults, eleven wrong values at every place inside the arguments, must-raise calls; histories to depth 3; 120 deletion orders x 12 sets of objects x 2 collections", "thorough": "also double faults; 30 values inside the arguments; histories to depth 4; 720 deletion orders"}
TIMEOUT = {"quick": 300, "thorough": 3600}


class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MI


class VInt(int):
    """a vertex whose references can be counted (small ints are immortal)"""
    def __repr__(self):
        return int.__repr__(self)


def countable():
    """the alphabet's universe made of countable vertices"""
    V = {i: VInt(i) for i in range(1, 6)}
    ops.VERTS = [V[i] for i in range(1, 6)]
    ops.EDGES = [(V[a], V[b]) for a, b in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (4, 5))]
    ops.ARCS = [(V[a], V[b]) for a, b in ((1, 2), (2, 1), (2, 3), (3, 1), (3, 4), (4, 1))]
    return ops.VERTS + ops.EDGES + ops.ARCS + [setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet]


NAMES = ("diagram nodes", "Python blocks", "malloc bytes", "references", "descriptors")


def measure(tracked=()):
    gc.collect()
    hooks.gc()
    m = libc.mallinfo2()
    return (hooks.used(), sys.getallocatedblocks(), m.uordblks + m.hblkhd, sum(map(sys.getrefcount, tracked)), len(os.listdir("/proc/self/fd")))


def growth(rows, reps):
    """which resources grew in every round by at least a unit per repetition (nodes: at all)"""
    d = [[b - a for a, b in zip(x, y)] for x, y in zip(rows, rows[1:])]
    bad = []
    for i, need in enumerate((1, reps - 1, 16 * (reps - 1), reps - 1, 1)):
        if all(r[i] >= need for r in d):
            bad.append((NAMES[i], [r[i] for r in d]))
    return bad


def repeated(fns, tracked=(), reps=8, rounds=3, warm=3):
    for _ in range(warm):
        for f in fns:
            f()
    rows = [measure(tracked)]
    for _ in range(rounds):
        for _ in range(reps):
            for f in fns:
                f()
        rows.append(measure(tracked))
    return growth(rows, reps)


def judge(ctx, items, tracked=(), size=16):
    """items: (description, thunk).  Judged in groups, a growing group one by one."""
    for k in range(0, len(items), size):
        grp = items[k:k + size]
        for desc, _ in grp:
            ctx.case(desc, True)
        if not repeated([f for _, f in grp], tracked):
            continue
        for desc, f in grp:
            ctx.case(desc)
            bad = repeated([f], tracked, reps=20, rounds=4)
            if bad:
                ctx.fail("storage grows with every repetition of the call", "no growth", bad)
        ctx.cur = [d for d, _ in grp]
        bad = repeated([f for _, f in grp], tracked, reps=20, rounds=4)
        if bad:
            ctx.fail("storage grows with every repetition of the calls together", "no growth", bad)


def u_calls(ctx, part, parts):
    tracked = countable()
    w = ops.World()
    A = ops.alphabet()[part::parts]
    judge(ctx, [(op[0], lambda op=op: ops.run(w, op)) for op in A], tracked, 8)
    # operands kept: only the result comes and goes
    items = []
    for op in A:
        if op[1]:
            o = ops.make(w, op)
            tracked += o
            if any(t in op[0] for t in ("|=", "-=", "add(", "discard", "flip", "graft", "prune")):
                continue

            def f(op=op, o=o):
                ops.canon(op[3](*o))
            items.append((op[0] + " on kept operands", f))
    judge(ctx, items, tracked, 8)


def swallow(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def u_single(ctx, name, pairs):
    spec = c19.calls()[name]
    key, fn, valid = spec
    upd = name.split(".")[-1].split(" ")[-1] in c19.UPDATING or name.startswith("setset")
    st = [c19.World()]

    def call(faults):
        if upd:
            st[0] = c19.World()
        W = st[0]
        args = [p(W) for p in valid]
        for pos, prod in faults:
            args[pos] = prod(W)
        swallow(fn, W.o[key] if key else None, *args)
    pool = [p for p in c19.POOL if c19.sane(name, p[0])]
    items = [((name, pos, label), lambda pos=pos, prod=prod: call([(pos, prod)])) for pos in range(len(valid)) for label, prod in pool]
    if not valid:
        items = [((name,), lambda: call([]))]
    if pairs and len(valid) > 1:
        small = [p for p in pool if p[0] in c19.SMALL]
        items += [((name, i, a[0], j, b[0]), lambda i=i, j=j, a=a, b=b: call([(i, a[1]), (j, b[1])]))
                  for i in range(len(valid)) for j in range(i) for a in small for b in small]
    judge(ctx, items, (), 40)


def u_inside(ctx, name, labels):
    """a wrong value at every place inside the valid arguments"""
    key, fn, valid = c19.calls_spec(name)
    upd = name.split(".")[-1].split(" ")[-1] in c19.UPDATING or name.startswith("setset")
    st = [c19.World()]

    def call(pos, make):
        if upd:
            st[0] = c19.World()
        W = st[0]
        args = [p(W) for p in valid]
        args[pos] = make(W)
        swallow(fn, W.o[key] if key else None, *args)
    judge(ctx, [((name, pos, label), lambda pos=pos, make=make: call(pos, make)) for pos, label, make in c19.inside(st[0], name, labels)], (), 40)


def u_must(ctx, tag, part, parts):
    W = c19.World()
    GraphSet.set_universe(c19.WORLDS[tag][0], traversal="as-is")
    DiGraphSet.set_universe(c19.WORLDS[tag][1], traversal="as-is")
    W.o = {}
    for C in (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet):
        for k, f in c19.families(C).items():
            W.o[C.__name__ + k] = f
    tracked = list(W.o.values()) + [setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet]
    items = []
    for label, C, exc, f in c19.must_raise(tag):
        for kind in (("some", "all") if C else ("",)):
            r = W.o[C.__name__ + kind] if C else None
            items.append(((tag, label, kind), lambda f=f, r=r: swallow(f, r)))
    judge(ctx, items[part::parts], tracked, 64)


# ---- deletion orders ----------------------------------------------------
def object_sets():
    """sets of objects that share nodes in different ways"""
    def s(x):
        return setset(x)
    base = [{1, 2, 3}, {1, 2}, {2, 3}, {1, 4}, set(), {3, 4, 5}]
    return [
        ("shared subdiagrams", lambda: [s(base[:k]) for k in (6, 5, 4, 3, 2, 1)]),
        ("equal objects", lambda: [s(base) for _ in range(6)]),
        ("copies", lambda: (lambda x: [x, x.copy(), x.copy(), setset(x), ~x, ~~x])(s(base))),
        ("derived", lambda: (lambda x, y: [x, y, x | y, x & y, x - y, x.join(y)])(s(base), s(base[2:] + [{5}]))),
        ("chains", lambda: [setset({}).smaller(k) for k in range(6)]),
        ("iterators", lambda: (lambda x: [x, iter(x), x.rand_iter(), x.min_iter(), x.max_iter(), x.minimal()])(s(base))),
        ("started iterators", lambda: (lambda x: [x] + [adv(i) for i in (iter(x), x.rand_iter(), x.min_iter(), x.max_iter(), iter(x | x))])(s(base))),
        ("enumerations", lambda: [GraphSet.trees(), GraphSet.forests([1]), GraphSet.cycles(), GraphSet.paths(1, 5), GraphSet.matchings(), GraphSet.trees(is_spanning=True)]),
        ("graph algebra", lambda: (lambda x, y: [x, y, x.join(y), x.meet(y), x.subgraphs(y), x.minimal()])(GraphSet.trees(1), GraphSet.cycles())),
        ("classes", lambda: (lambda x: [x, x.to_vertexsetset(), x.to_edgevertexsetset(), x.add_some_edge(), x.remove_some_edge(), x.remove_add_some_edges()])(GraphSet.cycles())),
        ("digraphs", lambda: (lambda x: [x, DiGraphSet.rooted_trees(1), DiGraphSet.directed_st_paths(1, 4), ~x, x.maximal(), x.larger(3)])(DiGraphSet.directed_cycles())),
        ("vertex sets", lambda: (lambda x: [x, VertexSetSet.dominating_sets(ops.EDGES), ~x, x.hitting(), x.remove_add_some_vertices(), x.maximal()])(VertexSetSet.independent_sets(ops.EDGES))),
        ("filters", lambda: (lambda x: [x, x.cost_le({i: i for i in range(1, 6)}, 5), x.supersets(1), x.non_supersets(2), x.set_size(2), x.larger(1)])(setset({}).smaller(4))),
        ("updated in place", lambda: updated()),
    ]


def adv(i):
    next(i)
    return i


def updated():
    x = setset([{1}, {2, 3}])
    out = [x]
    y = x.copy(); y |= setset([{4}]); out.append(y)
    y = x.copy(); y.add({1, 5}); y.discard({1}); out.append(y)
    y = x.copy(); y.clear(); out.append(y)
    y = x.copy(); y.flip(2); out.append(y)
    y = x.copy(); y.pop(); y.add(4); out.append(y)
    return out


def val(o):
    """the diagram with its nodes numbered as they come"""
    if not hasattr(o, "dumps"):
        return None
    num = {}
    return [[num.setdefault(t, len(num)) if i != 1 else t for i, t in enumerate(l.split())] for l in o.dumps().split("\n")]


def u_orders(ctx, k, th):
    w = ops.World()
    hooks.set_rand(lambda: 0.5)
    label, mk = object_sets()[k]
    for _ in range(2):
        mk()
    base = measure()[0]
    n = len(mk())
    want = None
    assert measure()[0] == base
    seen = 0
    for drop in ([None] if th else range(n)):
        for perm in permutations([i for i in range(n) if i != drop]):
            for collect in (False, True):
                ctx.case((label, "deleted in order", perm, "collecting after each" if collect else "collecting at the end"), True)
                o = mk()
                if drop is not None:
                    o[drop] = None
                if want is None:
                    full = mk()
                    want = [val(x) for x in full]
                    del full
                for j, i in enumerate(perm):
                    o[i] = None
                    ctx.transitions += 1
                    if collect:
                        hooks.gc()
                    if collect or j == len(perm) // 2:
                        for q in perm[j + 1:]:
                            if val(o[q]) != want[q]:
                                ctx.fail("an object changed when another was released", want[q], val(o[q]))
                hooks.gc()
                u = hooks.used()
                if u != base:       # unless only in reference cycles
                    u = measure()[0]
                if u != base:
                    ctx.fail("nodes remain after all objects are gone", base, u)
                seen += 1
            if not th and seen > 720 * 2:
                break
    ctx.states += seen


# ---- iterators abandoned at every position ----------------------------------
def u_iterators(ctx):
    w = ops.World()
    fams = [lambda: setset([{1, 2}, {3}, set(), {2, 4, 5}, {1, 5}]), lambda: GraphSet.trees(1), lambda: VertexSetSet.dominating_sets(ops.EDGES), lambda: DiGraphSet.rooted_trees(1),
            lambda: GraphSet.cycles().to_edgevertexsetset(), lambda: setset(), lambda: setset([set()])]
    its = [("iter", iter), ("rand_iter", lambda x: x.rand_iter()), ("min_iter", lambda x: x.min_iter()), ("max_iter", lambda x: x.max_iter())]
    for i, mk in enumerate(fams):
        x = mk()
        n = len(x)
        del x
        for name, it in its:
            for stop in range(min(n, 30) + 2):
                for order in ("iterator first", "family first", "family changed"):
                    def body():
                        x = mk()
                        j = it(x)
                        if order == "family first":
                            del x
                        elif order == "family changed":
                            x.clear()
                        for _, _ in zip(range(stop), j):
                            pass
                        if order == "iterator first":
                            del j
                            return len(x)
                        del j
                    ctx.case((i, name, "abandoned after", stop, order), stop > 0)
                    body()
                    b0 = measure()
                    body()
                    body()
                    b1 = measure()
                    if b1[0] != b0[0]:
                        ctx.fail("nodes remain after the iterator is gone", b0, b1)


# ---- files ---------------------------------------------------------------------
def u_files(ctx):
    w = ops.World()
    d = tempfile.mkdtemp()
    p = os.path.join(d, "f")
    items = []
    fams = {"setset": lambda: w.s("A"), "GraphSet": lambda: w.g("A"), "DiGraphSet": lambda: w.d("B"), "VertexSetSet": lambda: w.v("C"), "EdgeVertexSetSet": lambda: w.e("A")}

    def rt(mk, cut):
        x = mk()
        with open(p, "w") as f:
            x.dump(f)
        data = open(p).read()
        if cut is not None:
            with open(p, "w") as f:
                f.write(data[:cut] if cut >= 0 else data.replace("T", "X"))
        with open(p) as f:
            swallow(type(x).load, f)
        swallow(type(x).load, io.StringIO(data))       # without a descriptor
        swallow(x.dump, io.StringIO())
        swallow(type(x).loads, data if cut is None else data[:cut])

    def ro(mk):
        x = mk()
        open(p, "w").close()
        with open(p) as f:
            swallow(x.dump, f)          # not writable
        f = open(p)
        f.close()
        swallow(x.dump, f)
        swallow(type(x).load, f)
        with open("/dev/full", "w") if os.path.exists("/dev/full") else open(p) as f:
            swallow(x.dump, f)
            swallow(f.flush)
    for n, mk in fams.items():
        size = len(mk().dumps())
        for cut in [None, -1] + list(range(0, size, 3)):
            items.append(((n, "dump and load", cut), lambda mk=mk, cut=cut: rt(mk, cut)))
        items.append(((n, "unusable files"), lambda mk=mk: swallow(ro, mk)))
    judge(ctx, items, (), 16)
    os.unlink(p)
    os.rmdir(d)


# ---- universes -----------------------------------------------------------------
def u_universes(ctx):
    """fresh vertices and elements in every repetition"""
    GraphSet.show_messages(False)
    n = [0]

    def rename():
        n[0] += 1
        return ["v%d_%d" % (n[0], i) for i in range(6)]

    def gs(es, trav):
        def f():
            v = rename()
            GraphSet.set_universe([(v[a], v[b], n[0] % 7) for a, b in es], traversal=trav)
            x = GraphSet.trees(v[0])
            len(x | GraphSet.cycles())
            list(zip(range(3), x.min_iter({e: n[0] % 5 for e in GraphSet.universe()} if False else None)))
            swallow(lambda: x.cost_le({tuple(e[:2]): n[0] % 11 for e in GraphSet.universe()}, 9))
            VertexSetSet.independent_sets([(v[a], v[b]) for a, b in es])
            swallow(lambda: GraphSet.reliability({tuple(e[:2]): .5 for e in GraphSet.universe()}, [v[0], v[1]]))
            swallow(lambda: GraphSet.graphs(degree_constraints={v[0]: n[0] % 3}, vertex_groups=[[v[0], v[1]]]))
            swallow(lambda: GraphSet.balanced_partitions({u: n[0] for u in v}, 2.0))
        return f

    def ds():
        v = rename()
        DiGraphSet.set_universe([(v[a], v[b]) for a, b in ((0, 1), (1, 0), (1, 2), (2, 0))], traversal="as-is")
        DiGraphSet.directed_cycles(), DiGraphSet.rooted_trees(v[0]), DiGraphSet.graphs(in_degree_constraints={v[0]: 1})

    def ss():
        v = rename()
        setset.set_universe(v[:4])
        x = setset([{v[0], v[1]}, {v[2]}])
        x.add({v[4], v[5]})
        x.hitting(), x.remove_add_some_elements(), x.minimal(), list(x.max_iter({u: n[0] for u in v}))

    def vs():
        v = rename()
        VertexSetSet.set_universe(v)
        list(VertexSetSet({}).graph_size(2))

    def bad():
        v = rename()
        for b in ([(v[0], v[1]), (v[1], v[0])], [(v[0], v[1]), (v[1], [])], [(v[0], v[1]), 5], [(v[0],)]):
            swallow(GraphSet.set_universe, b)
            swallow(DiGraphSet.set_universe, b)
        swallow(setset.set_universe, v + v)
        swallow(setset.set_universe, v + [[]])
        swallow(setset, [{v[0], v[1]}, 5])
        swallow(GraphSet.set_universe, [(v[0], v[1])], "nothing")
    items = []
    shapes = {"K4": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], "path": [(i, i + 1) for i in range(5)], "split": [(0, 1), (2, 3), (3, 4), (2, 4)], "star": [(0, i) for i in range(1, 6)]}
    for s, es in shapes.items():
        for trav in ("bfs", "dfs", "greedy", "as-is"):
            items.append((("GraphSet universes", s, trav), gs(es, trav)))
    items += [("DiGraphSet universes", ds), ("setset universes", ss), ("VertexSetSet universes", vs), ("refused universes", bad)]
    # names of growing length and unlike texts are the caller's: only their number may not stay
    for it in items:
        judge(ctx, [it])
    judge(ctx, items, (), len(items))


# ---- histories --------------------------------------------------------------------
def u_hist(ctx, first, second, depth):
    import c05_history as c05
    H = c05.Hist()
    E = c05.EVENTS
    for e in E:
        H.event(e)
        H.event("register")

    def settle():
        H.event("drop")
        H.event("register")
        gc.collect()
        hooks.gc()
        return hooks.used()
    base = settle()
    for rest in product(E, repeat=depth - 2):
        h = (E[first], E[second]) + rest
        ctx.case(h, True)
        ctx.transitions += len(h)
        for e in h:
            H.event(e)
            if e in ("other setset", "small setset", "big graph", "small graph", "grow setset"):
                H.event("register")
        u = settle()
        ctx.states += 1
        if u != base:
            ctx.fail("nodes remain after the history's objects are gone", base, u)


def units(tier):
    th = tier == "thorough"
    us = [Unit("calls/%d" % i, u_calls, (i, 16), seq=True) for i in range(16)]
    us += [Unit("hist/%d/%d" % (a, b), u_hist, (a, b, 4 if th else 3), seq=True) for a in range(12) for b in range(12)]
    us += [Unit("orders/%d" % i, u_orders, (i, th), seq=True) for i in range(len(object_sets()))]
    us += [Unit("iterators", u_iterators, seq=True), Unit("files", u_files, seq=True), Unit("universes", u_universes, seq=True)]
    us += [Unit("must/%s/%d" % (t, i), u_must, (t, i, 4), seq=True) for t in (c19.WORLDS if th else ("k4-", "str")) for i in range(4)]
    us += [Unit("single/" + n, u_single, (n, th), seq=True) for n in c19.calls()]
    us += [Unit("inside/" + n, u_inside, (n, c19.LEAVES if th else ["object", "1.5", "10**30", "raising1", "None", "Evil", "EvilHash", "'zz'", "(1,)", "surrogate", "GraphSet"]), seq=True) for n in c19.calls() if c19.calls()[n][2]]
    return us
