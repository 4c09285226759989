"""C05: answers do not depend on what the process did before.

The state explored is the library's hidden state (node table, unique tables,
operation caches, variables).  Garbage collections are scheduled by the explorer
at every node request of every operation (hook in getnode), histories of
operations, universe changes, object lifetimes and collections are enumerated,
and every answer is compared with the same call's answer in a fresh process."""
import os
from itertools import product
from vrun import Unit, Violation
import hooks, ops
from c17_reconf import fork_run
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet

PROPERTY, LEVEL = "C05", "exploration"
VARIANT = "hooks"
TECHNIQUE = ("stateless exploration of the real library: every garbage-collection point of every operation (hook), after every preparing operation, all histories "
             "of operations/universe changes/object lifetimes up to a depth in fresh processes, all small node-table sizes; answers compared with a fresh process")
NOTE = ("Collections are forced at the place where the library itself collects (getnode, table full), at every request number, so every schedule explored is "
        "one a small enough table produces; table growth and real overflow collections are run as well (node limits enumerated).")
RULE = "one evaluation = one call whose answer is compared with its answer in a fresh process; non-trivial if a collection or a history event preceded or interrupted it"
ASSUMPTIONS = ["the fresh-process answers themselves are decided by C01-C17"]
BOUNDS = {"quick": "547-call alphabet (5 classes, all enumerations): each with a collection at every node request, and at all of them; each setset call and enumeration after "
                   "each of 20 preparing calls with a collection at every request; all histories of length 3 over 12 events, then all setset calls and a third of "
                   "the rest; node-table limits 2100..2400 and initial sizes 256..10000",
          "thorough": "every call after every call with a collection at every request; histories of length 4; limits 1500..4000"}

PREP = ["s.|(A,B)", "s.-(A,B)", "s./(C,A)", "s.%(C,A)", "s.join(A,B)", "s.meet(A,B)", "s.subsets(A,B)", "s.supersets(C,A)", "s.non_subsets(A,B)",
        "s.non_supersets(A,B)", "s.minimal(A)", "s.maximal(C)", "s.hitting(C)", "s.remadd(A)", "s.addsome(C)", "s.rem(C)", "s.cost_le(A)", "s.rand_iter(C)",
        "enum.trees", "enum.balanced"]
_fresh = {}


def prefill():
    """answers of each call in its own fresh process (no history at all); run before any unit."""
    import pickle
    todo = [o for o in ops.alphabet() if o[0] not in _fresh]
    while todo:
        batch, todo = todo[:16], todo[16:]
        ps = []
        for op in batch:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    d = pickle.dumps(("ok", ops.run(ops.World(), op)))
                except BaseException as e:
                    d = pickle.dumps(("raised", repr(e)))
                with os.fdopen(w, "wb") as f:
                    f.write(d)
                os._exit(0)
            os.close(w)
            ps.append((op[0], pid, r))
        for n, pid, r in ps:
            with os.fdopen(r, "rb") as f:
                d = f.read()
            os.waitpid(pid, 0)
            _fresh[n] = pickle.loads(d) if d else ("died", None)


def fresh(ctx, names):
    out = {}
    for n in names:
        k, v = _fresh[n]
        if k != "ok":
            ctx.case(("fresh process", n))
            ctx.fail("the call %s in a fresh process" % k, None, v)
        out[n] = v
    return out


def setgc(at=0, every=0):
    if hooks.gc_at is not None:
        hooks.gc_at.value, hooks.gc_every.value = at, every


def req():
    return hooks.requests.value if hooks.requests is not None else 0


def u_gcpoints(ctx, part, parts, preps, prefixes, every_too=True):
    alpha = ops.alphabet()
    byname = {o[0]: o for o in alpha}
    mine = [o for o in alpha if o[0].startswith(tuple(prefixes))][part::parts]
    exp = fresh(ctx, [o[0] for o in mine])
    w = ops.World()
    base = [None] + [byname[p] for p in preps if p in byname]
    for op in mine:
        for prep in base:
            def go(tag):
                ctx.case((op[0], "after", prep[0] if prep else None, tag), True)
                hooks.gc()
                operands = ops.make(w, op)
                if prep:
                    ops.run(w, prep)
                return operands
            operands = go("no collection")
            r0 = req()
            if ops.run(w, op, operands) != exp[op[0]]:
                ctx.fail("the answer differs from a fresh process", exp[op[0]], ops.run(w, op))
            K = req() - r0
            ctx.extra["max_requests"] = max(ctx.extra.get("max_requests", 0), K)
            # a collection between preparation and call, and each one inside the call
            k, inside = 0, True
            while inside:
                operands = go(("collection at request", k))
                if k == 0:
                    hooks.gc()
                else:
                    setgc(at=req() + k)
                    r1 = req()
                got = ops.run(w, op, operands)
                if k:
                    inside = req() - r1 >= k and k < 600
                setgc()
                ctx.transitions += 1
                if got != exp[op[0]]:
                    ctx.fail("the answer differs from a fresh process", exp[op[0]], got)
                k += 1
                if not K and k > 1:
                    break
            if every_too and K:
                operands = go("a collection at every request")
                setgc(every=1)
                try:
                    got = ops.run(w, op, operands)
                finally:
                    setgc()
                if got != exp[op[0]]:
                    ctx.fail("the answer differs from a fresh process", exp[op[0]], got)
                operands = go("every request of preparation and call")
                setgc(every=1)
                try:
                    if prep:
                        ops.run(w, prep)
                    got = ops.run(w, op, operands)
                finally:
                    setgc()
                if got != exp[op[0]]:
                    ctx.fail("the answer differs from a fresh process", exp[op[0]], got)


class Hist:
    """events of a history; each leaves the world's universes registered as at the start or changed on purpose."""

    def __init__(self):
        self.w, self.held = ops.World(), []
        self.byname = {o[0]: o for o in ops.alphabet()}

    def many(self, names):
        for n in names:
            ops.run(self.w, self.byname[n])

    def event(self, e):
        w = self.w
        if e == "unary":
            self.many(["s.minimal(A)", "s.maximal(A)", "s.hitting(C)", "s.remadd(A)", "s.addsome(A)", "s.rem(C)", "s.~(A)"])
        elif e == "binary":
            self.many(["s./(C,A)", "s.%(C,A)", "s.join(A,B)", "s.meet(C,A)", "s.subsets(A,B)", "s.supersets(C,A)", "s.non_subsets(C,A)", "s.non_supersets(B,C)"])
        elif e == "enumerate":
            self.many(["enum.trees", "enum.balanced", "enum.graphs(vg)", "enum.dcycles", "enum.independent", "enum.graphset arg"])
        elif e == "gc":
            hooks.gc()
        elif e == "hold":
            self.held += [w.s("A"), w.g("B"), w.g("C").join(w.g("A")), ~w.s("B"), w.v("C"), GraphSet.trees(), iter(w.s("C")), w.s("A").rand_iter()]
        elif e == "drop":
            self.held.clear()
        elif e == "grow setset":
            self.held.append(setset([{"x", 1}, {"y", "z", 2}]))
            ops.canon(setset({"include": {1}}).minimal())
        elif e == "other setset":
            setset.set_universe(["p", "q", 3, 2, 1, "r", "s", 5])
            x = setset({}).set_size(3)
            ops.canon(x.remove_some_element()); ops.canon(x.minimal()); ops.canon(x.hitting()); ops.canon(x - setset([{"p", 3}]))
        elif e == "small setset":
            setset.set_universe([2, 1])
            x = setset({})
            ops.canon(x.remove_add_some_elements()); ops.canon(x.maximal()); ops.canon(x.smaller(1).hitting()); ops.canon(~x)
        elif e == "big graph":
            es = [(i, j) for i in range(1, 7) for j in range(i + 1, 7)]
            GraphSet.set_universe(es)
            ops.canon(GraphSet.cliques(4)); len(GraphSet.trees(is_spanning=True)); len(GraphSet.cycles().minimal()); len(VertexSetSet.dominating_sets(es))
        elif e == "small graph":
            GraphSet.set_universe([("a", "b"), ("b", "c")])
            ops.canon(GraphSet({}).add_some_edge()); ops.canon(GraphSet.paths("a", "c")); ops.canon(VertexSetSet({}).hitting())
            DiGraphSet.set_universe([("a", "b"), ("b", "a")])
            ops.canon(DiGraphSet.directed_cycles()); ops.canon(DiGraphSet({}).graph_size(1))
        elif e == "updates":
            x = w.s("A"); x.add({1, 5}); x.flip(2); x |= w.s("B"); x -= w.s("C"); x ^= w.s("A"); x.discard(3); x.pop() if x else None; x.clear()
            y = setset.loads(w.s("C").dumps()); y &= w.s("A")
        elif e == "register":
            w.register()


EVENTS = ["unary", "binary", "enumerate", "gc", "hold", "drop", "grow setset", "other setset", "small setset", "big graph", "small graph", "updates"]


def u_hist(ctx, first, second, depth, stride):
    names = [o[0] for o in ops.alphabet()]
    probe = [n for n in names if n.startswith("s.")] + [n for n in names if not n.startswith("s.")][(first + second) % stride::stride]
    exp = fresh(ctx, names)
    byname = {o[0]: o for o in ops.alphabet()}
    for rest in product(EVENTS, repeat=depth - 2):
        h = (EVENTS[first], EVENTS[second]) + rest
        ctx.case(h, True)
        ctx.transitions += len(h)
        ctx.evals += len(probe)

        def body():
            H = Hist()
            for e in h:
                H.event(e)
                if e in ("other setset", "small setset", "big graph", "small graph", "grow setset"):
                    H.event("register")
            # once as left behind by the history, once more with the garbage reused
            for rnd in range(2):
                for n in probe if rnd == 0 else probe[::4]:
                    got = ops.run(H.w, byname[n])
                    if got != exp[n]:
                        ctx.cur = h + ("then", n, "round", rnd)
                        ctx.fail("the answer differs from a fresh process", exp[n], got)
                hooks.gc()
        fork_run(ctx, body)


def workload():
    """much garbage, few live nodes; returns a digest of the answers."""
    import zlib
    out = []
    setset.set_universe(range(1, 15))
    p = setset({})
    for k in range(2, 8):
        x = p.set_size(k)
        y = p.set_size(k - 1)
        out.append((len(x), len(x | y), len(x - y), len(x.join(setset([{1}, {2, 3}]))), len(x / setset([{1}])), len(x.non_supersets(setset([{1, 2}, {5, 9}])))))
        z = x & p.smaller(k + 1)
        out.append((len(z), len(z.minimal()), len(setset([{1, 2}, {3, 4, k}, {5}]).hitting()), len(x.remove_some_element()), z == x))
        out.append(len(x.cost_le({i: i for i in range(1, 15)}, 8 * k)))
    GraphSet.set_universe([(i, i + 1) for i in range(1, 6)] + [(i, i + 6) for i in range(1, 7)] + [(i, i + 1) for i in range(7, 12)])
    out.append((len(GraphSet.trees(is_spanning=True)), len(GraphSet.paths(1, 12)), len(GraphSet.matchings()), len(GraphSet.cycles())))
    out.append(zlib.crc32(repr(sorted(sorted(g) for g in GraphSet.paths(1, 12))).encode()))
    return out


def in_child(ctx, env, fn):
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        for k, v in env.items():
            os.environ[k] = v
        try:
            d = pickle.dumps(("ok", fn()))
        except BaseException as e:
            d = pickle.dumps(("raised", repr(e)))
        with os.fdopen(w, "wb") as f:
            f.write(d)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(d) if d else ("died", st)


def u_limits(ctx, pairs):
    kind, exp = in_child(ctx, {}, workload)
    if kind != "ok":
        ctx.case(("workload", "default table"))
        ctx.fail("the workload", None, (kind, exp))
    for init, limit in pairs:
        ctx.case(("workload", "initial nodes", init, "node limit", limit), True)
        ctx.transitions += 1
        got = in_child(ctx, {"GRAPHILLION_VERIF_INIT": str(init), "GRAPHILLION_VERIF_LIMIT": str(limit)}, workload)
        if got != ("ok", exp):
            ctx.fail("the answers differ from those with a large table", exp, got)


def units(tier):
    th = tier == "thorough"
    us = []
    prefill()
    if th:
        us += [Unit("gcpoints/prep/%d" % p, u_gcpoints, (p, 128, [o[0] for o in ops.alphabet()][::3], ("s.", "enum.")), seq=True, timeout=3000) for p in range(128)]
    else:
        us += [Unit("gcpoints/prep/%d" % p, u_gcpoints, (p, 48, PREP, ("s.", "enum.")), seq=True) for p in range(48)]
    us += [Unit("gcpoints/%s/%d" % (k, p), u_gcpoints, (p, 4, PREP if th else PREP[:1], (k,)), seq=True) for k in ("g.", "d.", "v.", "e.") for p in range(4)]
    for a in range(len(EVENTS)):
        for b in range(len(EVENTS)):
            us.append(Unit("hist/%d/%d" % (a, b), u_hist, (a, b, 4 if th else 3, 3), seq=True))
    lim = [(256, l) for l in (range(1500, 4000, 3) if th else range(2100, 2400, 6))] + [(i, 2600) for i in range(256, 2600, 60)] + [(i, 1 << 20) for i in range(256, 10000, 400)]
    for p in range(16):
        us.append(Unit("limits/%d" % p, u_limits, (lim[p::16],), seq=True))
    return us
