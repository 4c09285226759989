"""C04: cost filters against the sum over members."""
from itertools import product, combinations
from vrun import Unit
import bigref
from adapt import adapter
from c01_algebra import EVS
from c02_updates import Table, fam_of
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet

PROPERTY, LEVEL, VARIANT = "C04", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of families x integer cost vectors x bounds x filter histories on the real classes against the sum over members"
NOTE = ("Every family over 3 elements with every cost vector and every bound that can separate two totals; every family over 4 elements with a set of "
        "vectors; 32-bit extremes; structured families over 10..14 elements with every bound.")
RULE = "one evaluation = one filter call compared with the definition; non-trivial if it keeps some members and drops some"
ASSUMPTIONS = ["costs are 32-bit integers (documented)", "plain setset has no cost_ge/cost_eq"]
BOUNDS = {"quick": "setset, GraphSet: all 256 families over 3 elements x {-2,-1,0,1,3}^3 costs x bounds -7..10 x le/ge/eq, other classes {-2,0,1}^3; all 65536 "
                   "families over 4 elements x 5 cost vectors x 4 bounds; costs from the 32-bit extremes (4^3 vectors) with all separating bounds; all bounds for "
                   "6 cost patterns over powerset, size-k, product and staircase families over 10 elements; all histories of 3 filters from 18"
                   "; 15 kinds of families over 12 elements x 8 cost patterns x bounds at the quantiles",
          "thorough": "cost alphabet of 7 values, 4-element families x 20 vectors, 14 elements"}


def total(cost, m, n):
    return sum(cost[i] for i in range(n) if m >> i & 1)


def filters(ad, x, costs, b):
    yield "cost_le", x.cost_le(costs, b), lambda t: t <= b
    if ad.cls is not setset:
        yield "cost_ge", x.cost_ge(costs, b), lambda t: t >= b
        yield "cost_eq", x.cost_eq(costs, b), lambda t: t == b


def one(ctx, ad, T, f, x, w, costs, b, tag=None):
    tot = {m: total(w, m, ad.n) for m in f}
    for name, r, keep in filters(ad, x, costs, b):
        exp = frozenset(m for m in f if keep(tot[m]))
        ctx.case((ad.name, name, sorted(f), w, b, tag), 0 < len(exp) < len(f))
        if not (r == T.get(exp)) or type(r) is not type(x) and ad.cls is not setset:
            ctx.fail(name, sorted(exp), sorted(ad.masks(r)))


def get_ad(cls):
    return EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, 3)


def keyed(ad, w):
    return {ad.elems[i]: w[i] for i in range(ad.n)}


def u_all(ctx, cls, vals, part, parts):
    ad = get_ad(cls)
    T = Table(ctx, ad)
    lo, hi = 3 * min(vals) - 1, 3 * max(vals) + 1
    vecs = list(product(vals, repeat=3))
    for k in range(part, 256, parts):
        f = fam_of(k)
        x = T.get(f)
        for w in vecs:
            costs = keyed(ad, w)
            for b in range(lo, hi + 1):
                one(ctx, ad, T, f, x, w, costs, b)
        if x != T.get(f):
            ctx.fail("the filters changed the object")


def u_four(ctx, vecs, bounds, part, parts):
    ad = adapter("setset", 4)
    for k in range(part, 1 << 16, parts):
        f = [i for i in range(16) if k >> i & 1]
        x = ad.make(f)
        for w in vecs:
            costs = keyed(ad, w)
            for b in bounds:
                exp = frozenset(m for m in f if total(w, m, 4) <= b)
                ctx.case(("setset4", f, w, b), 0 < len(exp) < len(f))
                r = x.cost_le(costs, b)
                if len(r) != len(exp) or ad.masks(r) != exp:
                    ctx.fail("cost_le", sorted(exp), sorted(ad.masks(r)))


EXT = [-(1 << 31), -1, 1, (1 << 31) - 1]


def u_extreme(ctx, cls, part, parts):
    ad = get_ad(cls)
    T = Table(ctx, ad)
    fams = [fam_of(k) for k in (0xff, 0x96, 0x69, 0x81, 0x80, 0x8e, 0xe8, 0x01)]
    for w in list(product(EXT, repeat=3))[part::parts]:
        costs = keyed(ad, w)
        sums = {total(w, m, 3) for m in range(8)}
        bounds = sorted({s + d for s in sums for d in (-1, 0, 1)} | {-(1 << 31), (1 << 31) - 1, 1 << 33, -(1 << 33)})
        for f in fams:
            x = T.get(f)
            for b in bounds:
                one(ctx, ad, T, f, x, w, costs, b)
            for b in (1 << 62, (1 << 63) - 1, -(1 << 62), -(1 << 63), 1 << 63, 1 << 80, -(1 << 80)):
                ctx.case((ad.name, "huge bound", sorted(f), w, b))
                try:
                    one(ctx, ad, T, f, x, w, costs, b)
                except OverflowError:
                    pass


def struct_families(n):
    """(name, masks) of structured families over n elements."""
    full = range(1 << n)
    yield "powerset", frozenset(full)
    for k in (1, n // 2, n - 1):
        yield "size %d" % k, frozenset(m for m in full if bin(m).count("1") == k)
    yield "no two neighbours", frozenset(m for m in full if not m & m >> 1)
    yield "staircase", frozenset((1 << i) - 1 for i in range(n + 1))
    yield "multiples of 7", frozenset(m for m in full if m % 7 == 3)
    h = n // 2
    yield "product", frozenset(a | b << h for a in (1, 2, 3, 5, 8, 13, 21) for b in (0, 4, 7, 11, 30))


def patterns(n):
    yield "ones", [1] * n
    yield "signs", [(-1) ** i * (i % 3 + 1) for i in range(n)]
    yield "squares", [i * i % 11 - 4 for i in range(n)]
    yield "zeros", [0 if i % 2 else 2 for i in range(n)]
    yield "binary", [1 << i for i in range(n)]
    yield "primes", [(2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43)[i] for i in range(n)]


def u_struct(ctx, cls, n, pi):
    ad = adapter(cls, n) if cls == "setset" else adapter(cls, n)
    pname, w = list(patterns(n))[pi]
    costs = keyed(ad, w)
    for name, f in struct_families(n):
        x = ad.make(f)
        tot = {m: total(w, m, n) for m in f}
        vals = sorted(set(tot.values()))
        bounds = sorted({b for v in vals for b in (v - 1, v, v + 1)})
        step = max(1, len(bounds) // 120)
        prev = None
        for b in bounds[::step] + [bounds[0] - 5, bounds[-1] + 5]:
            for fname, r, keep in filters(ad, x, costs, b):
                exp = frozenset(m for m in f if keep(tot[m]))
                ctx.case((cls, n, pname, name, fname, b), 0 < len(exp) < len(f))
                if len(r) != len(exp) or (len(exp) < 300 or b % 5 == 0) and ad.masks(r) != exp:
                    ctx.fail(fname, len(exp), len(r))


def u_big(ctx, cls, m, pi):
    """larger universes: every member decided through bitmaps, bounds at the quantiles of the totals and outside"""
    U = bigref.Uni(cls, m)
    P = list(patterns(min(m, 14)))[pi % 6]
    w = (P[1] * 2)[:m]
    if pi == 6:
        w = [(i * 37 % 11 - 5) * 10 ** (i % 8) for i in range(m)]
    elif pi == 7:
        w = [(-1) ** (i // 3) * (2 ** 31 - 1 - i) for i in range(m)]
    tot = bigref.linear(w)
    costs = dict(zip(U.elems, w))
    for fn, f in bigref.pool(m).items():
        x = U.make(f)
        vals = bigref.np.unique(tot[f])
        q = sorted({int(vals[len(vals) * i // 12]) + d for i in range(12) for d in (-1, 0, 1)} | {int(vals[0]) - 1, int(vals[-1]), int(vals[-1]) + 1})
        for b in q:
            for name, keep in (("cost_le", tot <= b), ("cost_ge", tot >= b), ("cost_eq", tot == b)):
                if cls == "setset" and name != "cost_le":
                    continue
                exp = f & keep
                ctx.case((cls, m, fn, name, pi, b), bool(exp.any()) and not (exp == f).all())
                U.check(ctx, name, getattr(x, name)(costs, b), exp)
        U.check(ctx, "the family afterwards", x, f)


def u_hist(ctx, cls, first):
    """all histories of three filters: costs and bounds evaluated before do not matter."""
    ad = get_ad(cls)
    T = Table(ctx, ad)
    fs = [fam_of(0xff), fam_of(0x7e), fam_of(0x96)]
    cs = [(1, 2, 3), (-1, 2, 0), (3, 3, -3)]
    ev = [(f, w, b) for f in fs for w in cs for b in (0, 3)]
    for a in (first,):
        for b, c in product(range(len(ev)), repeat=2):
            for i, (f, w, bd) in enumerate((ev[a], ev[b], ev[c])):
                one(ctx, ad, T, f, T.get(f), w, keyed(ad, w), bd, (a, b, c, i))


def u_forms(ctx, cls):
    """key forms, missing and wrong costs."""
    ad = get_ad(cls)
    T = Table(ctx, ad)
    names = ["cost_le"] if ad.cls is setset else ["cost_le", "cost_ge", "cost_eq"]
    for k in range(0, 256, 3):
        f = fam_of(k)
        x = T.get(f)
        for w in ((1, 2, -1), (0, -2, 5)):
            costs = keyed(ad, w)
            if ad.cls in (GraphSet, EdgeVertexSetSet):
                rc = {(e[::-1] if isinstance(e, tuple) else e): c for e, c in costs.items()}
                for b in (-1, 0, 1, 3):
                    one(ctx, ad, T, f, x, w, rc, b, "reversed keys")
            one(ctx, ad, T, f, x, w, dict(reversed(list(costs.items()))), 1, "other key order")
            one(ctx, ad, T, f, x, (1, 0, 1), dict(zip(ad.elems, (True, False, True))), 1, "bool costs")
            for nm in names:
                for label, c, b, exc in [("missing", dict(list(costs.items())[:-1]), 1, AssertionError), ("none given", {}, 1, AssertionError),
                                         ("unknown key", dict(costs, **{"nowhere": 1}), 1, KeyError), ("too big", keyed(ad, (1, 1 << 31, 0)), 1, AssertionError),
                                         ("too small", keyed(ad, (1, -(1 << 31) - 1, 0)), 1, AssertionError), ("huge", keyed(ad, (1 << 70, 1, 0)), 1, AssertionError),
                                         ("float", keyed(ad, (1.5, 1, 0)), 1, TypeError), ("text", keyed(ad, ("1", 1, 0)), 1, TypeError),
                                         ("None", keyed(ad, (None, 1, 0)), 1, (TypeError, AssertionError)), ("float bound", costs, 1.5, TypeError),
                                         ("text bound", costs, "1", TypeError), ("no bound", costs, None, TypeError)]:
                    ctx.case((cls, nm, label, sorted(f)), True)
                    try:
                        r = getattr(x, nm)(c, b)
                    except exc:
                        pass
                    else:
                        ctx.fail("%s accepted costs that are %s" % (nm, label), exc, sorted(ad.masks(r)))
        if ad.masks(x) != f:
            ctx.fail("the object changed", sorted(f), sorted(ad.masks(x)))


CLS = ["setset", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str", "EdgeVertexSetSet", "setset-mixed"]


def units(tier):
    th = tier == "thorough"
    us = []
    for c in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        for m in (12,) if not th else (12, 14, 16):
            us += [Unit("big/%s/%d/%d" % (c, m, i), u_big, (c, m, i), seq=True) for i in range(8)]
    for c in CLS:
        big = th or c == "setset" or c == "GraphSet"
        vals = (-3, -2, -1, 0, 1, 2, 5) if th else (-2, -1, 0, 1, 3) if big else (-2, 0, 1)
        parts = 16 if big else 4
        us += [Unit("all/%s/%d" % (c, p), u_all, (c, vals, p, parts), seq=True) for p in range(parts)]
        us += [Unit("extreme/%s/%d" % (c, p), u_extreme, (c, p, 4), seq=True) for p in range(4)]
        us.append(Unit("forms/" + c, u_forms, (c,), seq=True))
        if c in ("setset", "GraphSet", "VertexSetSet"):
            us += [Unit("hist/%s/%d" % (c, a), u_hist, (c, a), seq=True) for a in range(18)]
        if c in ("setset", "GraphSet", "DiGraphSet", "VertexSetSet"):
            n = 14 if th and c == "setset" else 10
            us += [Unit("struct/%s/%d" % (c, i), u_struct, (c, n, i), seq=True) for i in range(6)]
    vecs = [(1, 1, 1, 1), (1, 2, 4, 8), (-1, 2, -3, 4), (0, 0, 5, -5), (7, -7, 1, 0)]
    if th:
        vecs += list(product((-1, 0, 2), repeat=4))[::5]
    us += [Unit("four/%d" % p, u_four, (vecs, (-1, 0, 2, 5), p, 32), seq=True) for p in range(32)]
    return us
