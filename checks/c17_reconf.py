"""C17: reconfiguration steps (remove / add / exchange one element)."""
from itertools import combinations, product
from vrun import Unit
import bigref
from adapt import adapter, SS, GS, DS, VS
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet

PROPERTY, LEVEL, VARIANT = "C17", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of families and of operation/universe histories on the real classes against the set-theoretic definition"
NOTE = ("Every family within the bound is stepped on the real classes; every history of steps, other operations and universe changes up to the "
        "bound runs in one process (the operation cache keeps its state) and each answer is compared with the definition.")
RULE = "one evaluation = one step call compared member by member; non-trivial if the expected family is not empty"
ASSUMPTIONS = ["families are over the current universe of their class, or (histories) over elements a setset universe still has"]
BOUNDS = {"quick": "all families over <= 3 elements for 6 class/universe kinds, all 65536 over 4 elements (setset), structured families over 5..8 "
                   "elements; all histories of length 3 over 11 events (3 steps x 2 families, growth, other class registered, re-registration, "
                   "meet/join noise) followed by all three steps, from 4 starting universes"
                   "; 15 kinds of families over 11 and 13 elements",
          "thorough": "65536 families for every class, histories of length 4"}


def steps(fam, n):
    rem = {s & ~(1 << i) for s in fam for i in range(n) if s >> i & 1}
    add = {s | 1 << i for s in fam for i in range(n) if not s >> i & 1}
    exc = {(s & ~(1 << i)) | 1 << j for s in fam for i in range(n) if s >> i & 1 for j in range(n) if not s >> j & 1}
    return {"remove_some": frozenset(rem), "add_some": frozenset(add), "remove_add": frozenset(exc)}


def one(ctx, ad, fam, x, which=None, tag=None):
    for k, exp in steps(fam, ad.n).items():
        if which and k != which:
            continue
        ctx.case((ad.name, ad.n, k, sorted(fam), tag), bool(exp))
        r = getattr(x, ad.m[k])()
        got = ad.masks(r)
        if got != exp:
            ctx.fail(ad.m[k], sorted(exp), sorted(got))
        if len(r) != len(exp):
            ctx.fail("len() of " + ad.m[k], len(exp), len(r))
        if type(r) is not type(x) and ad.name != "setset":
            ctx.fail("type of the result", type(x), type(r))


def u_all(ctx, cls, n, part, parts):
    ad = adapter(cls, n)
    for f in range(part, 1 << (1 << n), parts):
        fam = frozenset(i for i in range(1 << n) if f >> i & 1)
        x = ad.make(fam)
        one(ctx, ad, fam, x)
        if f % 16 == 0 and ad.masks(x) != fam:
            ctx.fail("the family was changed", sorted(fam), sorted(ad.masks(x)))


def u_struct(ctx, cls, n, bigger):
    if bigger:
        setset.set_universe(range(bigger))
        GraphSet.set_universe([(i, i + 1) for i in range(1, 5)])
    ad = adapter(cls, n)
    N = 1 << n
    pc = lambda i: bin(i).count("1")
    fams = [[0], [N - 1], [0, N - 1], range(N), [i for i in range(N) if pc(i) == 2], [i for i in range(N) if pc(i) % 2],
            [1 << i for i in range(n)], [N - 1 - (1 << i) for i in range(n)], [i for i in range(N) if not i & (i >> 1)],
            [i for i in range(N) if i & 1], [i for i in range(N) if i >> (n - 1)], [i for i in range(N) if i % 11 == 4], [5, 6, N - 2], [1], [N >> 1]]
    for f in fams:
        f = frozenset(f)
        one(ctx, ad, f, ad.make(f))
    if n <= 5:
        for p in combinations(range(N), 2):
            f = frozenset(p)
            one(ctx, ad, f, ad.make(f))


def u_big(ctx, cls, m, part, parts):
    """larger universes: every member decided through bitmaps"""
    U = bigref.Uni(cls, m)
    names = {"setset": SS, "GraphSet": GS, "DiGraphSet": DS, "VertexSetSet": VS}[cls].m
    for k, (fn, f) in enumerate(bigref.pool(m).items()):
        if k % parts != part:
            continue
        x = U.make(f)
        for op, g in (("remove_some", bigref.removed), ("add_some", bigref.added), ("remove_add", bigref.swapped)):
            exp = g(f)
            ctx.case((cls, m, fn, op), bool(exp.any()) and not exp.all())
            U.check(ctx, names[op], getattr(x, names[op])(), exp)
        U.check(ctx, "the family afterwards", x, f)


# --- histories: universes that grow, shrink and alternate between classes ---

class Hist:
    """setset, GraphSet, DiGraphSet and VertexSetSet used in turn in one process."""

    def __init__(self, ctx, start):
        self.ctx = ctx
        n, gn, dn = start
        setset.set_universe(list(range(1, n + 1)))
        GraphSet.set_universe([(i, i + 1) for i in range(1, gn + 1)], traversal="as-is")
        DiGraphSet.set_universe([(i, i + 1) for i in range(1, dn + 1)], traversal="as-is")
        self.objs = {}

    def views(self):
        e = setset.universe()
        ge = [x[:2] for x in GraphSet.universe()]
        de = [x[:2] for x in DiGraphSet.universe()]
        return {"s": (setset, e, SS.m), "g": (GraphSet, ge, GS.m), "d": (DiGraphSet, de, DS.m), "v": (VertexSetSet, VertexSetSet.universe(), VS.m)}

    def step(self, cls, sel, op):
        C, e, m = self.views()[cls]
        n = len(e)
        # families given by elements, so that they stay the same while the universe grows
        fam = {"last": [[e[min(2, n - 1)]]], "mix": [[e[0]], [e[0], e[min(1, n - 1)]], []], "ends": [[e[0], e[n - 1]]]}[sel]
        fam = [sorted(set(s), key=e.index) for s in fam]
        key = (cls, repr(fam), repr(e))
        x = self.objs.get(key)
        if x is None:
            x = self.objs[key] = C([set(s) for s in fam]) if C is setset else C(fam)
        idx = {v: i for i, v in enumerate(e)}
        masks = frozenset(sum(1 << idx[v] for v in s) for s in fam)
        exp = steps(masks, n)[op]
        r = getattr(x, m[op])()
        got = [sum(1 << idx[v] for v in s) for s in r]
        if frozenset(got) != exp or len(got) != len(exp):
            self.ctx.fail("%s.%s in this history" % (C.__name__, m[op]), sorted(exp), sorted(got))

    def event(self, ev):
        if ev[0] == "step":
            self.step(*ev[1:])
        elif ev[0] == "grow":                       # implicit growth of the setset universe
            setset([set([len(setset.universe()) + 1])])
        elif ev[0] == "gbig":
            GraphSet.set_universe([(i, i + 1) for i in range(1, 9)], traversal="as-is")
        elif ev[0] == "gsmall":
            GraphSet.set_universe([(1, 2), (2, 3), (1, 3)], traversal="as-is")
        elif ev[0] == "dset":
            DiGraphSet.set_universe([(1, 2), (2, 3), (3, 1), (1, 3), (3, 2)], traversal="as-is")
        elif ev[0] == "noise":                      # operations that share the operation cache
            C, e, m = self.views()["s"]
            a = setset([set([e[0]]), set([e[0], e[1]]), set([e[1], e[2]])])
            b = setset([set([e[1]]), set([]), set([e[0], e[2]])])
            for r in (a.meet(b), b.meet(a), a.join(b), a.subsets(b), a.supersets(b), a / b, a % b, a.meet(setset([set()])), a.hitting()):
                len(r)


EVENTS = [("step", c, s, o) for c, s, o in (("s", "last", "add_some"), ("s", "mix", "remove_add"), ("s", "last", "remove_add"),
                                            ("g", "last", "add_some"), ("g", "ends", "remove_add"), ("d", "mix", "add_some"),
                                            ("v", "last", "remove_add"), ("s", "mix", "remove_some"))] + \
         [("grow",), ("gbig",), ("gsmall",), ("dset",), ("noise",)]
STARTS = [(3, 3, 3), (3, 5, 2), (5, 3, 4), (4, 4, 4)]


def u_hist(ctx, start, first, depth):
    """every history of `depth` events that starts with `first`, then every step; each in a fresh process state is not
    possible inside one process, so histories are chained: state accumulates, answers must not change.  A second pass
    (u_hist_fresh) runs each short history in its own process."""
    from itertools import product
    for rest in product(range(len(EVENTS)), repeat=depth - 1):
        h = Hist(ctx, start)
        hist = [EVENTS[first]] + [EVENTS[i] for i in rest]
        ctx.case((start, hist), True)
        for ev in hist:
            h.event(ev)
            ctx.transitions += 1
        for c in "sgdv":
            for s in ("last", "mix", "ends"):
                for o in ("remove_some", "add_some", "remove_add"):
                    h.step(c, s, o)


def fork_run(ctx, fn):
    """runs fn in a forked child (fresh library state); failures are passed up."""
    import os, pickle
    from vrun import Violation
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
            data = b""
        except Violation as v:
            data = pickle.dumps(v.rec)
        except BaseException:
            import traceback
            data = pickle.dumps({"what": "unexpected exception", "case": repr(ctx.cur), "got": traceback.format_exc()[-3000:],
                                 "expected": "no exception", "key": "exception"})
        os.write(w, data[:60000])
        os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if buf:
        raise Violation(pickle.loads(buf))
    if st:
        raise Violation({"what": "process died (status %d)" % st, "case": repr(ctx.cur), "expected": "", "got": "", "key": "died"})


def u_hist_fresh(ctx, start, first):
    for second in range(len(EVENTS)):
        def body():
            h = Hist(ctx, start)
            for i in (first, second):
                h.event(EVENTS[i])
            for c in "sgdv":
                for s in ("last", "mix", "ends"):
                    for o in ("remove_some", "add_some", "remove_add"):
                        h.step(c, s, o)
        ctx.case((start, EVENTS[first], EVENTS[second], "fresh process"), True)
        ctx.transitions += 2
        fork_run(ctx, body)


def units(tier):
    q = tier == "quick"
    u = []
    for cls in ("setset", "GraphSet", "DiGraphSet", "VertexSetSet"):
        for m in (11, 13) if q else (11, 13, 14, 16, 18):
            for p in range(3):
                u.append(Unit("big-%s-%d-%d" % (cls, m, p), u_big, (cls, m, p, 3), seq=True))
    for cls in ("setset", "setset-mixed", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str"):
        for n in (1, 2, 3):
            u.append(Unit("all-%s-%d" % (cls, n), u_all, (cls, n, 0, 1), seq=True))
        for n in (5, 7, 8):
            for b in (0, 3, 14):
                u.append(Unit("struct-%s-%d-%d" % (cls, n, b), u_struct, (cls, n, b), seq=True))
    for cls in ("setset",) if q else ("setset", "GraphSet", "DiGraphSet", "VertexSetSet"):
        for p in range(16):
            u.append(Unit("all4-%s-%d" % (cls, p), u_all, (cls, 4, p, 16), seq=True))
    for s in range(len(STARTS)):
        for f in range(len(EVENTS)):
            u.append(Unit("hist-%d-%d" % (s, f), u_hist, (STARTS[s], f, 3 if q else 4), seq=True))
            u.append(Unit("fresh-%d-%d" % (s, f), u_hist_fresh, (STARTS[s], f), seq=True))
    return u
