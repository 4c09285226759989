"""C03: iteration, length, membership and choice against the family.

Families are enumerated completely over small universes; the nondeterminism of
rand_iter is explored like a scheduler's: the hook replaces every random number by
an explorer's decision, so every order the library can deliver is executed."""
from itertools import product, combinations, islice
from math import comb
from vrun import Unit
import bigref, hooks
from adapt import adapter
from c01_algebra import EVS
from c02_updates import Table, fam_of
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet

PROPERTY, LEVEL = "C03", "exploration"
VARIANT = "hooks"
TECHNIQUE = ("bounded-exhaustive enumeration of families, weight assignments and random decisions (every decision sequence of rand_iter, through a hook) "
             "and of iterator/update interleavings on the real classes")
NOTE = ("Within the bounds every family, every weight vector, every random decision and every interleaving of an iterator with updates runs on the real "
        "code; families beyond 4 elements are structured (exact member counts chosen around every size limit).")
RULE = ("one evaluation = one query or one complete iteration compared with the family; non-trivial if the family is neither empty nor {{}}")
ASSUMPTIONS = ["above 1e17 members rand_iter may repeat a member (documented in the source), it then only has to deliver members","the pseudo-random generator itself is not judged, only what is made of its numbers"]
BOUNDS = {"quick": "all 256 families over 3 elements for setset, GraphSet, DiGraphSet, VertexSetSet (int/str) and EdgeVertexSetSet; all 65536 over 4 elements "
                   "for setset; all weight vectors over {-1, 0, 0.5, 2} for 3 elements; all rand_iter decision sequences for all families over 3 elements "
                   "(at most 6 members complete, larger ones first 4 draws); all interleavings of length 5 of next/updates on an iterator; families with "
                   "exactly N members for N around 2^31, 2^32, 2^53, 1e17, 2^62, 2^63, 2^64, 2^100, 2^1100"
                   "; 15 kinds of families over 12 elements iterated completely in every order, also over elements up to position 290; len() of powersets of 0..700, 2100..2150, 14270..14300 and up to 20000 elements; the exact distribution of the first two members of rand_iter for all families over 3 elements, of the first one for every 331st "
                   "family over 4 elements and for powersets of 3 to 2000 elements",
          "thorough": "all decision sequences for every family over 3 elements; 65536 families for every class; interleavings of length 6"}
CLS = ["setset", "setset-mixed", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str", "EdgeVertexSetSet"]


def get_ad(cls, n):
    return EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, n)


def weights_of(ad, w):
    return {ad.elems[i]: w[i] for i in range(ad.n)}


def upto(it, n):
    """an iteration that repeats itself is cut off after one member too many"""
    return islice(it, n + 1)


def drain(ctx, ad, it, fam, what, key=None):
    out = []
    for s in it:
        m = ad.mask(s)
        if m not in fam:
            ctx.fail(what + " delivered a set that is no member", sorted(fam), m)
        out.append(m)
        if len(out) > len(fam):
            ctx.fail(what + " delivers a member twice", sorted(fam), out)
    if len(set(out)) != len(fam):
        ctx.fail(what + " misses members", sorted(fam), out)
    if key is not None:
        ks = [key(m) for m in out]
        if any(a > b for a, b in zip(ks, ks[1:])):
            ctx.fail(what + " is out of order", sorted(ks), ks)
    return out


def queries(ctx, ad, fam, x, light=False):
    ctx.case((ad.name, ad.n, sorted(fam)), bool(fam - {0}))
    n = ad.n
    drain(ctx, ad, x, fam, "iteration")
    ctx.eq(len(x), len(fam), "len()")
    ctx.eq(x.len(), len(fam), "obj.len()")
    ctx.eq(bool(x), bool(fam), "bool()")
    for m in range(1 << n):
        mem = ad.members(m)
        forms = [set(mem), frozenset(mem)] + ([] if ad.cls is setset else [mem, mem[::-1]])
        for a in forms[:1] if light else forms:
            ctx.eq(a in x, m in fam, "%r in x" % (a,))
    for i, e in enumerate(ad.elems):
        if isinstance(e, (set, frozenset)):
            continue
        exp = any(s >> i & 1 for s in fam)
        ctx.eq(e in x, exp, "%r in x" % (e,))
        if ad.cls is GraphSet or ad.cls is EdgeVertexSetSet and isinstance(e, tuple):
            ctx.eq((e[1], e[0]) in x, exp, "reversed edge in x")
    if ad.cls in (GraphSet, DiGraphSet):
        for v in sorted({v for e in ad.elems for v in e}):
            inc = sum(1 << i for i, e in enumerate(ad.elems) if v in e)
            ctx.eq(v in x, any(s & inc for s in fam), "vertex %r in x" % (v,))
    if ad.cls is setset:
        for unk in ("nowhere", 987654, (0, 0)):
            ctx.eq(unk in x, False, "unknown element in x")
        ctx.eq({"nowhere", ad.elems[0]} in x, False, "set with an unknown element in x")
    try:
        c = ad.mask(x.choice())
        if c not in fam:
            ctx.fail("choice() is no member", sorted(fam), c)
    except KeyError:
        if fam:
            ctx.fail("choice() raised", sorted(fam), "KeyError")
    drain(ctx, ad, x.rand_iter(), fam, "rand_iter")
    drain(ctx, ad, x.min_iter(), fam, "min_iter()", lambda m: bin(m).count("1"))
    drain(ctx, ad, x.max_iter(), fam, "max_iter()", lambda m: -bin(m).count("1"))
    # a family survives all of this, and pop takes it apart
    y = x.copy()
    left = set(fam)
    while left:
        m = ad.mask(y.pop())
        if m not in left:
            ctx.fail("pop() delivered a set that is no member", sorted(left), m)
        left.remove(m)
        if len(y) != len(left) or bool(y) != bool(left):
            ctx.fail("len()/bool() after pop()", len(left), len(y))
    try:
        r = y.pop()
        ctx.fail("pop() on the empty family", "KeyError", r)
    except KeyError:
        pass
    if ad.masks(x) != fam:
        ctx.fail("the queries changed the object", sorted(fam), sorted(ad.masks(x)))


def u_fam(ctx, cls, n, part, parts):
    ad = get_ad(cls, n)
    T = Table(ctx, ad)
    for b in range(part, 1 << (1 << ad.n), parts):
        f = fam_of(b) if ad.n <= 3 else frozenset(i for i in range(16) if b >> i & 1)
        queries(ctx, ad, f, T.get(f), light=ad.n > 3)
        T.obj.clear()


def u_weights(ctx, cls, vals, part, parts):
    ad = get_ad(cls, 3)
    T = Table(ctx, ad)
    vecs = list(product(vals, repeat=ad.n))
    for b in range(part, 256, parts):
        f = fam_of(b)
        x = T.get(f)
        for w in vecs:
            cost = lambda m: sum(w[i] for i in range(ad.n) if m >> i & 1)
            ws = weights_of(ad, w)
            ctx.case((cls, "weights", sorted(f), w), len(f) > 1)
            drain(ctx, ad, x.min_iter(ws), f, "min_iter(weights)", cost)
            drain(ctx, ad, x.max_iter(ws), f, "max_iter(weights)", lambda m: -cost(m))
        # reversed edges, missing weights (1, or setset's default), unknown elements, interleaved iterators
        for w in vecs[::7]:
            cost = lambda m: sum(w[i] for i in range(ad.n) if m >> i & 1)
            if ad.cls is GraphSet or ad.cls is EdgeVertexSetSet:
                ws = {(e[::-1] if isinstance(e, tuple) else e): w[i] for i, e in enumerate(ad.elems)}
                ctx.case((cls, "reversed weights", sorted(f), w), len(f) > 1)
                drain(ctx, ad, x.min_iter(ws), f, "min_iter(reversed weights)", cost)
                drain(ctx, ad, x.max_iter(ws), f, "max_iter(reversed weights)", lambda m: -cost(m))
            for miss in range(ad.n):
                for d in ([None, -3, 0.25] if ad.cls is setset else [None]):
                    ws = {e: w[i] for i, e in enumerate(ad.elems) if i != miss}
                    dv = 1 if d is None else d
                    c2 = lambda m: sum((w[i] if i != miss else dv) for i in range(ad.n) if m >> i & 1)
                    if not ws:
                        continue
                    ctx.case((cls, "missing weight", sorted(f), w, miss, d), len(f) > 1)
                    kw = {} if d is None else {"default": d}
                    drain(ctx, ad, x.min_iter(ws, **kw), f, "min_iter(missing weight)", c2)
                    drain(ctx, ad, x.max_iter(ws, **kw), f, "max_iter(missing weight)", lambda m: -c2(m))
        a, bb = x.min_iter(weights_of(ad, vecs[5])), x.max_iter(weights_of(ad, vecs[-3]))
        la, lb = [], []
        for s, t in zip(upto(a, len(f)), upto(bb, len(f))):
            la.append(ad.mask(s)); lb.append(ad.mask(t))
        if set(la) != f or set(lb) != f:
            ctx.fail("two live iterators", sorted(f), (la, lb))


def u_uweights(ctx):
    """weights registered with the universe, for every traversal."""
    edges = [("a", "b", 2.0), ("b", "c", -1.0), ("c", "d", 0.5), ("d", "a", 4.0), ("a", "c")]
    w = {(e[0], e[1]): (e[2] if len(e) > 2 else 1) for e in edges}
    for trav in ("as-is", "bfs", "dfs", "greedy"):
        for cls in (GraphSet, EdgeVertexSetSet):
            GraphSet.set_universe(edges, traversal=trav)
            x = cls({})
            exp = sorted(sum(w[e] for i, e in enumerate(w) if b >> i & 1) for b in range(32))

            def total(g):
                r = 0
                for e in g:
                    if isinstance(e, tuple):
                        r += w[e] if e in w else w[e[1], e[0]]
                    elif cls is EdgeVertexSetSet:
                        r += 1
                return r
            ctx.case(("universe weights", trav, cls.__name__), True)
            if cls is GraphSet:
                ctx.eq([total(g) for g in upto(x.min_iter(), len(exp))], exp, "min_iter with the universe's weights")
                ctx.eq([total(g) for g in upto(x.max_iter(), len(exp))], exp[::-1], "max_iter with the universe's weights")
            else:
                for it, sg in ((x.min_iter(), 1), (x.max_iter(), -1)):
                    l = [sg * total(g) for g in upto(it, len(x))]
                    ctx.eq(len(l), len(x), "number of members")
                    ctx.check(all(a <= b for a, b in zip(l, l[1:])), "order with the universe's weights", sorted(l), l)


class Stop(Exception):
    pass


def explore_random(ctx, ad, f, x, draws):
    """every decision sequence of the first `draws` draws (then whatever comes)."""
    stack = [[]]
    runs = 0
    orders = set()
    while stack:
        prefix = stack.pop()
        trail = []

        def rnd():
            k = len(trail)
            d = prefix[k] if k < len(prefix) else 0
            if k >= len(prefix) and limit[0]:
                pending.append(trail + [1])
            trail.append(d)
            return 1.0 if d else 1e-300
        pending, limit = [], [True]
        ctx.case((ad.name, "rand_iter", sorted(f), "decisions", prefix), len(f) > 1)
        hooks.set_rand(rnd)
        out = []
        try:
            for s in x.rand_iter():
                out.append(ad.mask(s))
                if out[-1] not in f or len(out) > len(f):
                    ctx.fail("rand_iter", sorted(f), out)
                if len(out) >= draws - 1:
                    limit[0] = len(out) < draws - 1 or draws >= len(f)
        finally:
            hooks.set_rand(None)
        if set(out) != f or len(out) != len(f):
            ctx.fail("rand_iter", sorted(f), out)
        orders.add(tuple(out[:draws]))
        stack += pending
        runs += 1
        if runs > 200000:
            ctx.fail("the explorer does not terminate", "", "")
    ctx.transitions += runs
    ctx.count("random_schedules", runs)
    return orders


def u_random(ctx, cls, part, parts, full):
    ad = get_ad(cls, 3)
    T = Table(ctx, ad)
    have = hooks._rand is not None
    for b in range(part, 256, parts):
        f = fam_of(b)
        x = T.get(f)
        if not have:
            continue
        draws = len(f) if len(f) <= (8 if full else 5) else 3
        explore_random(ctx, ad, f, x, draws)


def u_snapshot(ctx, cls, kind, length, part, parts):
    """an iterator already running keeps delivering its family while the object changes."""
    ad = get_ad(cls, 3)
    T = Table(ctx, ad)
    fams = [fam_of(b) for b in (0x0b, 0x96, 0xff, 0x68, 0x81)]
    evs = ad.cls is EdgeVertexSetSet
    acts = ["next", "clear", "add", "discard", "pop", "|=", "drop", "second"]
    for fi, f in enumerate(fams):
        for h in list(product(acts, repeat=length))[part::parts]:
            ctx.case((cls, kind, sorted(f), h), h[0] != "next" and bool(f))
            x = T.get(f).copy()
            it = getattr(x, kind)() if kind != "iter" else iter(x)
            out, model = [], set(f)

            def step(n=1):
                for _ in range(n):
                    s = next(it, None)
                    if s is None:
                        return False
                    out.append(ad.mask(s))
                return True
            step()
            gone = False
            for a in h:
                if a == "next":
                    step()
                elif a == "second":
                    if not gone and {ad.mask(s) for s in x} != model:
                        ctx.fail("second iteration", sorted(model), None)
                elif gone:
                    continue
                elif a == "clear":
                    x.clear(); model.clear()
                elif a == "add":
                    m = ad.members(5)
                    x.add(set(m)); model.add(5)
                elif a == "discard":
                    d = max(f) if f else 0
                    x.discard(set(ad.members(d))); model.discard(d)
                elif a == "pop":
                    if model:
                        model.remove(ad.mask(x.pop()))
                elif a == "|=":
                    x |= T.get(fams[1]); model |= fams[1]
                elif a == "drop":
                    del x
                    gone = True
            while step():
                pass
            if sorted(out) != sorted(f):
                ctx.fail("iterator running over an object being changed", sorted(f), sorted(out))


def exact(n, N):
    """a family over n elements 1..n with exactly N members, and its membership test:
    the binary numbers below N, most significant bit first."""
    assert N <= 1 << n
    if N == 1 << n:
        return setset({}), lambda s: True
    r = setset([])
    for i in range(n - 1, -1, -1):
        if N >> i & 1:
            inc = {n - j for j in range(i + 1, n) if N >> j & 1}
            exc = {n - j for j in range(i + 1, n) if not N >> j & 1} | {n - i}
            r |= setset({"include": inc, "exclude": exc})
    return r, lambda s: sum(1 << (n - e) for e in s) < N


def u_exact(ctx, Ns, n):
    for N in Ns:
        setset.set_universe(range(1, n + 1))
        ctx.case(("members", N, "elements", n), True)
        x, member = exact(n, N)
        ctx.eq(x.len(), N, "obj.len()")
        ctx.eq(type(x.len()), int, "type of obj.len()")
        ctx.eq(bool(x), N > 0, "bool()")
        try:
            l = len(x)
            ctx.check(N < 1 << 63, "len() beyond its range", "OverflowError", l)
            ctx.eq(l, N, "len()")
        except OverflowError:
            if N < (1 << 63) - 1:
                ctx.fail("len()", N, "OverflowError")
        c = ~x if n < 130 else setset({}) - x
        ctx.eq(c.len(), (1 << n) - N, "obj.len() of the complement")
        for s in (set(), {1}, {n}, {1, n}, set(range(1, n + 1)), set(range(2, n + 1)), {n - N.bit_length() + 1} if N.bit_length() <= n and N else set()):
            ctx.eq(s in x, member(s) if N else False, "%r in x" % sorted(s))
        if not N:
            continue
        for what, it, cnt in (("iteration", iter(x), 40), ("rand_iter", x.rand_iter(), 40), ("min_iter", x.min_iter(), 12), ("max_iter", x.max_iter(), 12)):
            ctx.case(("members", N, "elements", n, what), True)
            seen, sizes = set(), []
            for _ in range(min(cnt, N)):
                s = next(it, None)
                if s is None:
                    ctx.fail(what + " ended early", N, len(seen))
                if not member(s):
                    ctx.fail(what + " delivered a set that is no member", None, sorted(s))
                if frozenset(s) in seen and (what != "rand_iter" or N < 9 * 10**16):
                    ctx.fail(what + " delivered a member twice", None, sorted(s))
                seen.add(frozenset(s)); sizes.append(len(s))
            if what == "min_iter":
                ctx.check(sizes == sorted(sizes) and sizes[0] == 0, "min_iter order", None, sizes)
            if what == "max_iter":
                ctx.check(sizes == sorted(sizes)[::-1], "max_iter order", None, sizes)


def u_rand_big(ctx, n, N, script):
    """rand_iter of a large family under fixed decision patterns."""
    setset.set_universe(range(1, n + 1))
    x, member = exact(n, N)
    if hooks._rand is None:
        return
    vals = {"0": 1e-300, "1": 1.0, "h": 0.5}
    k = [0]

    def rnd():
        k[0] += 1
        return vals[script[k[0] % len(script)]]
    hooks.set_rand(rnd)
    try:
        seen = set()
        it = x.rand_iter()
        for i in range(60):
            s = next(it)
            ctx.case(("rand_iter", n, N, script, i), True)
            if not member(s):
                ctx.fail("rand_iter delivered a set that is no member", None, sorted(s))
            if N < 9 * 10**16 and frozenset(s) in seen:
                ctx.fail("rand_iter delivered a member twice", None, sorted(s))
            seen.add(frozenset(s))
    finally:
        hooks.set_rand(None)


def threshold(run, prefix):
    """(t, below, above): the next random number decides at t; None if it decides nothing.  run(values) -> outcome."""
    a, b = run(prefix + [1e-12]), run(prefix + [1 - 1e-12])
    if a == b:
        return None
    lo, hi = 0.0, 1.0
    for _ in range(24):
        m = (lo + hi) / 2
        if run(prefix + [m]) == a:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2, a, b


def distribution(ctx, x, ad, takes):
    """probability of every sequence of the first `takes` members, from all decisions of the random numbers."""
    used = [0]

    def run(values):
        k = [0]

        def rnd():
            k[0] += 1
            return values[k[0] - 1] if k[0] <= len(values) else 0.5
        hooks.set_rand(rnd)
        try:
            it = x.rand_iter()
            out = tuple(ad.mask(next(it)) for _ in range(takes))
        finally:
            hooks.set_rand(None)
        used[0] = k[0]
        ctx.transitions += 1
        return out
    probs = {}
    todo = [([], 1.0)]
    while todo:
        prefix, p = todo.pop()
        out = run(prefix)
        if used[0] <= len(prefix):
            probs[out] = probs.get(out, 0) + p
            continue
        if len(prefix) > 40:
            ctx.fail("the draws do not end", None, prefix)
        t = threshold(run, prefix)
        if t is None:
            todo.append((prefix + [0.5], p))
        else:
            t = t[0]
            todo.append((prefix + [t / 2], p * t))
            todo.append((prefix + [(1 + t) / 2], p * (1 - t)))
    return probs


def u_uniform(ctx, cls, n, step, takes, part, parts):
    """given uniform random numbers, every member is equally likely to come next (all decisions, exact probabilities)."""
    if hooks._rand is None:
        return
    ad = get_ad(cls, n)
    T = Table(ctx, ad)
    for b in range(1 + part * step, 1 << (1 << n), parts * step):
        f = fam_of(b)
        k = min(takes, len(f))
        ctx.case((cls, "uniform", sorted(f), "first", k), len(f) > 1)
        probs = distribution(ctx, T.get(f), ad, k)
        want = 1.0
        for i in range(k):
            want /= len(f) - i
        if len(probs) != round(1 / want) or any(abs(p - want) > 1e-5 for p in probs.values()):
            ctx.fail("probability of the first %d of %r" % (k, sorted(f)), want, probs)


def u_uniform_wide(ctx, n):
    """the same with thousands of elements, where the counts exceed every machine number."""
    if hooks._rand is None:
        return
    setset.set_universe(range(1, n + 1))
    p = setset({})

    def take(x, values, rest):
        k = [0]

        def rnd():
            k[0] += 1
            return values[k[0] - 1] if k[0] <= len(values) else rest(k[0])
        hooks.set_rand(rnd)
        try:
            ctx.transitions += 1
            return frozenset(next(x.rand_iter()))
        finally:
            hooks.set_rand(None)
    ctx.case(("uniform", n, "every element of the powerset"), True)
    a, b = take(p, [], lambda k: 0.4999), take(p, [], lambda k: 0.5001)
    if sorted((len(a), len(b))) != [0, n]:
        ctx.fail("each of %d elements is in with probability 1/2" % n, [0, n], [len(a), len(b)])
    flip = len(a) == n
    for m in (2, 3, 7):
        s = take(p, [], lambda k: 0.5001 if (k % m == 0) != flip else 0.4999)
        ctx.eq(sorted(s), [e for e in range(1, n + 1) if e % m == 0], "the members chosen by the random numbers")
    q = p - setset({"exclude": {1, 2, n}})
    ctx.case(("uniform", n, "with 1, 2 or the last element"), True)
    t = threshold(lambda v: 1 in take(q, v, lambda k: 0.5), [])
    if t is None or min(abs(t[0] - 3 / 7.), abs(t[0] - 4 / 7.)) > 1e-5:
        ctx.fail("4 of 7 members have element 1", 3 / 7., t)
    v = [t[0] / 2 if not t[1] else (1 + t[0]) / 2]  # element 1 stays out
    t = threshold(lambda v: 2 in take(q, v, lambda k: 0.5), v)
    if t is None or min(abs(t[0] - 1 / 3.), abs(t[0] - 2 / 3.)) > 1e-5:
        ctx.fail("2 of 3 members without element 1 have element 2", 1 / 3., t)
    v.append(t[0] / 2 if not t[1] else (1 + t[0]) / 2)
    for r in (0.4999, 0.5001):
        s = take(q, v, lambda k: r)
        if n not in s or len(s) not in (1, n - 2):
            ctx.fail("a member of the last element and any others", None, len(s))


def u_small_counts(ctx, n, part, parts):
    """every N from 0 to 2^n: exactly N members, iterated completely."""
    setset.set_universe(range(1, n + 1))
    for N in range(part, (1 << n) + 1, parts):
        x, member = exact(n, N)
        ctx.case(("complete", N, "elements", n), N > 1)
        ctx.eq(len(x), N, "len()")
        ctx.eq(x.len(), N, "obj.len()")
        l = [frozenset(s) for s in x]
        if len(l) != N or len(set(l)) != N or not all(member(s) for s in l):
            ctx.fail("iteration", N, len(l))
        if N % 5 == 0:
            for what, it in (("rand_iter", x.rand_iter()), ("min_iter", x.min_iter()), ("max_iter", x.max_iter())):
                l2 = [frozenset(s) for s in upto(it, N)]
                if len(l2) != N or set(l2) != set(l):
                    ctx.fail(what, N, len(l2))


def u_digits(ctx, lo, hi, step):
    """len() of powersets of thousands of elements: numbers of any length."""
    for n in range(lo, hi, step):
        setset.set_universe(range(n))
        x = setset({})
        ctx.case(("digits", n), n > 0)
        ctx.eq(x.len(), 1 << n, "obj.len()")
        try:
            l = len(x)
        except OverflowError:
            l = None
        ctx.eq(l, 1 << n if n < 63 else None, "len()")


def u_sizes(ctx, n):
    """C(n, k) members each, and the exact weight order of a whole powerset."""
    setset.set_universe(range(1, n + 1))
    p = setset({})
    for k in range(n + 1):
        ctx.case(("size", n, k), True)
        q = p.set_size(k)
        ctx.eq(q.len(), comb(n, k), "number of sets of size %d" % k)
        ctx.eq(len(next(iter(q))), k, "size of a member")
        ctx.eq(len(next(q.rand_iter())), k, "size of a member")
    ctx.eq(p.smaller(n // 2).len(), sum(comb(n, k) for k in range(n // 2)), "smaller")


def u_order(ctx, n, wname):
    """the order of a whole powerset is known exactly when all totals differ."""
    setset.set_universe(["e%d" % i for i in range(n)])
    ws = {"binary": [2.0 ** i for i in range(n)], "reversed": [2.0 ** (n - i) for i in range(n)], "signs": [(-2.0) ** i for i in range(n)],
          "negative": [-(2.0 ** i) for i in range(n)], "mixed": [2.0 ** ((i * 5) % n) * (-1 if i % 3 == 0 else 1) for i in range(n)],
          "tiny": [2.0 ** (i - 60) for i in range(n)], "huge": [2 ** (i + 40) for i in range(n)]}[wname]
    w = {"e%d" % i: ws[i] for i in range(n)}
    x = setset({})
    exp = sorted(sum(ws[i] for i in range(n) if b >> i & 1) for b in range(1 << n))
    ctx.case(("order", n, wname, "min_iter"), True)
    ctx.eq([sum(w[e] for e in s) for s in upto(x.min_iter(w), len(exp))], exp, "totals in min_iter order")
    ctx.case(("order", n, wname, "max_iter"), True)
    ctx.eq([sum(w[e] for e in s) for s in upto(x.max_iter(w), len(exp))], exp[::-1], "totals in max_iter order")
    for k in (1, n // 2, n - 1):
        y = x.set_size(k)
        e2 = sorted(sum(ws[i] for i in c) for c in combinations(range(n), k))
        ctx.case(("order", n, wname, k), True)
        ctx.eq([sum(w[e] for e in s) for s in upto(y.min_iter(w), len(e2))], e2, "totals in min_iter order")
        ctx.eq([sum(w[e] for e in s) for s in upto(y.max_iter(w), len(e2))], e2[::-1], "totals in max_iter order")


def u_big(ctx, cls, m, far, part, parts):
    """larger families: complete iterations in every order, membership of every subset"""
    np = bigref.np
    U = bigref.Wide(cls, far, [1 + i * (far - 1) // (m - 1) for i in range(m)]) if far else bigref.Uni(cls, m)
    pos = {}
    for i, e in enumerate(U.elems):
        pos[e] = 1 << (m - 1 - i)

    def code(s):
        return sum(pos[e] for e in s)
    W = [[(i * 7) % 5 - 2 for i in range(m)], [0.5 * ((i * i) % 7) for i in range(m)], [-1] * m, [0] * m, [2.0 ** -i if i % 2 else -3 for i in range(m)]]
    for k, (fn, f) in enumerate(bigref.pool(m).items()):
        if k % parts != part:
            continue
        x = U.make(f)
        N = int(f.sum())

        def t(what, it, total=None, sign=1):
            ctx.case((cls, m, far, fn, what), N > 1)
            got = np.array([code(s) for s in upto(it, N)], np.int64)
            if len(got) != N or not np.array_equal(np.sort(got), np.flatnonzero(f)):
                ctx.fail(what, N, (len(got), len(set(got.tolist()))))
            if total is not None:
                o = sign * total[got]
                if (np.diff(o) < 0).any():
                    ctx.fail(what + " is out of order", None, o[:40].tolist())
        t("iteration", x)
        t("rand_iter", x.rand_iter())
        ctx.eq(len(x), N, "len()")
        ctx.eq(x.len(), N, "obj.len()")
        ctx.eq(bool(x), N > 0, "bool()")
        pc = bigref.popcount(m).astype(float)
        t("min_iter", x.min_iter(), pc)
        t("max_iter", x.max_iter(), pc, -1)
        for w in W[(k % 2):][::2]:
            tot = bigref.linear([float(y) for y in w])
            ws = dict(zip(U.elems, w))
            if far:
                ws = {e: ws.get(e, 0) for e in U.cls.universe()}
            t("min_iter(weights)", x.min_iter(ws), tot)
            t("max_iter(weights)", x.max_iter(ws), tot, -1)
        if N:
            ctx.check(bool(f[code(x.choice())]), "choice() is no member")
        for s in range(0, 1 << m, 1 + (m > 10) * 2):
            a = U.subset(s)
            if ((set(a) if cls == "setset" else a) in x) != bool(f[s]):
                ctx.case((cls, m, far, fn, "membership", s), True)
                ctx.fail("membership", bool(f[s]), a)
        ctx.case((cls, m, far, fn, "membership"), True)
        for i, e in enumerate(U.elems):
            ctx.eq(e in x, bool(bigref.move(f, i, "with").any()), "element in the family")
        y = x.copy()
        gone = f.copy()
        for _ in range(min(N, 60)):
            c = code(y.pop())
            if not gone[c]:
                ctx.fail("pop() delivered a set that is no member", None, c)
            gone[c] = False
        U.check(ctx, "the rest after pop()", y, gone)
        U.check(ctx, "the family afterwards", x, f)


def units(tier):
    th = tier == "thorough"
    us = []
    for c in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        for m, far in ((12, 0), (9, 290)) if not th else ((12, 0), (13, 0), (9, 290), (11, 700)):
            us += [Unit("big/%s/%d-%d/%d" % (c, m, far, p), u_big, (c, m, far, p, 4), seq=True) for p in range(4)]
    for c in CLS:
        us += [Unit("fam3/%s/%d" % (c, p), u_fam, (c, 3, p, 2), seq=(p % 2 == 0)) for p in range(2)]
        if c != "EdgeVertexSetSet" and (th or c == "setset"):
            us += [Unit("fam4/%s/%d" % (c, p), u_fam, (c, 4, p, 16), seq=True) for p in range(16)]
        us += [Unit("weights/%s/%d" % (c, p), u_weights, (c, (-1, 0, 0.5, 2), p, 4), seq=True) for p in range(4)]
        if c in ("setset", "GraphSet", "VertexSetSet", "EdgeVertexSetSet", "DiGraphSet"):
            ps = 16 if c == "setset" or th else 4
            us += [Unit("random/%s/%d" % (c, p), u_random, (c, p, 16 if not th else ps, th), seq=True) for p in range(ps)]
            for kind in ("iter", "rand_iter", "min_iter", "max_iter"):
                L = 5 if th else 4
                us.append(Unit("snapshot/%s/%s" % (c, kind), u_snapshot, (c, kind, L, 0, 1 if c == "setset" or th else 5), seq=True))
    us.append(Unit("universe-weights", u_uweights))
    Ns = []
    for b in (7, 8, 15, 16, 31, 32, 52, 53, 56, 62, 63, 64, 65, 100):
        Ns += [(1 << b) - 1, 1 << b, (1 << b) + 1]
    Ns += [0, 1, 10**17 - 1, 10**17, 10**17 + 1, 10**18, 10**19 - 1, 10**19, 10**19 + 1, 10**20, (1 << 64) - (1 << 32), 0x123456789ABCDEF012345]
    for i in range(8):
        us.append(Unit("exact/%d" % i, u_exact, (Ns[i::8], 110), seq=True))
    for i, N in enumerate([(1 << 1100) - 1, 1 << 1099, (1 << 1024) + 1, (1 << 1024) - 1, 1 << 1023, 10 ** 300]):
        us.insert(0, Unit("exact/1100/%d" % i, u_exact, ([N], 1100), seq=True))
    for n, N in ((60, 10**17 - 1), (60, 10**17), (60, 1 << 56), (60, (1 << 56) - 1), (110, 1 << 109), (1100, (1 << 1099) - 5), (20, 1 << 19), (40, 10**9)):
        for script in ("0", "1", "01", "0011", "1101", "h", "0000001", "1111110"):
            us.append(Unit("randbig/%d/%x/%s" % (n, N, script) if n < 1000 else "randbig/%d/%s" % (n, script), u_rand_big, (n, N, script), seq=True))
    us += [Unit("uniform/setset/3/%d" % p, u_uniform, ("setset", 3, 1, 2, p, 8), seq=True) for p in range(8)]
    us += [Unit("uniform/%s/4/%d" % (c, p), u_uniform, (c, 4, 331 if not th else 37, 1, p, 2), seq=True) for c in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet") for p in range(2)]
    us += [Unit("uniform/wide/%d" % n, u_uniform_wide, (n,), seq=True) for n in (3, 50, 64, 110, 500, 1000, 1024, 1025, 1026, 1027, 1100, 2000) + ((4000, 8000) if th else ())]
    us += [Unit("digits/%d" % r[0], u_digits, r, seq=True) for r in
           ((0, 700, 1), (2100, 2150, 1), (14270, 14300, 1), (700, 65500 if th else 20000, 331))]
    us += [Unit("counts/%d" % p, u_small_counts, (10 if not th else 12, p, 8), seq=True) for p in range(8)]
    for n in (20, 33, 64, 70, 129):
        us.append(Unit("sizes/%d" % n, u_sizes, (n,), seq=True))
    for w in ("binary", "reversed", "signs", "negative", "mixed", "tiny", "huge"):
        us.append(Unit("order/%s" % w, u_order, (9 if not th else 12, w), seq=True))
    return us
