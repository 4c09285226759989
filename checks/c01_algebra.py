"""C01: every set-family operation returns exactly the family its definition says."""
from itertools import combinations, product
import numpy as np
import os, subprocess, sys
import bigref, vrun
from vrun import Unit
import adapt, ref
from graphillion import setset, GraphSet
from graphillion.edgevertex_setset import EdgeVertexSetSet

PROPERTY, LEVEL, VARIANT = "C01", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of operand families on the real classes against a reference model"
NOTE = ("Every operand tuple within the bounds is executed on the real code and compared with a bit-mask reference "
        "model; says nothing about universes beyond the bounds except the listed families.")
RULE = ("one evaluation = one operation applied to one operand tuple on the real classes, result compared "
        "with the family computed from its definition; operand tuples are enumerated exhaustively within "
        "the bounds; a case is non-trivial if the expected family is non-empty and differs from the first operand")
ASSUMPTIONS = ["quotient/remainder by the empty family is excluded (no finite definition independent of the universe)"]
BOUNDS = {
    "quick": "setset: all 256x256 family pairs over 3 elements x 27 operations, all 65536 families over 4 elements x "
             "unary operations (quarter), all pairs of families with <=2 members over 4 elements; GraphSet, DiGraphSet, "
             "VertexSetSet, EdgeVertexSetSet: all pairs of <=2-member families over 3 elements, all 256 families unary; "
             "structured families over 8..13 elements, all pairs; all operand triples of the n-ary operations"
                   "; scattered and structured families (15 kinds) over 10..14 elements, all pairs, every subset decided; the same over elements at positions up to 33000; members of 8191 elements (diagrams 8191 levels deep)",
    "thorough": "as quick, with all 65536 unary families over 4 elements, all <=3-member pairs over 4 elements, all "
                "256x256 pairs for every class",
}

BIN = ["union", "intersection", "difference", "symmetric_difference", "quotient", "remainder",
       "join", "meet", "subsets", "supersets", "non_subsets", "non_supersets"]


def bin_expected(op, f, g, n):
    if op == "union": return f | g
    if op == "intersection": return f & g
    if op == "difference": return f - g
    if op == "symmetric_difference": return f ^ g
    if op == "quotient": return ref.quotient(f, g, n)
    if op == "remainder": return ref.remainder(f, g, n)
    return getattr(ref, op)(f, g)


REL = {"==": lambda f, g: f == g, "!=": lambda f, g: f != g, "<=": lambda f, g: f <= g,
       "<": lambda f, g: f < g, ">=": lambda f, g: f >= g, ">": lambda f, g: f > g,
       "isdisjoint": lambda f, g: not (f & g), "issubset": lambda f, g: f <= g,
       "issuperset": lambda f, g: f >= g}
OPR = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference",
       "/": "quotient", "%": "remainder", "//": "quotient"}


def opr(a, o, b):
    if o == "|": return a | b
    if o == "&": return a & b
    if o == "-": return a - b
    if o == "^": return a ^ b
    if o == "/": return a / b
    if o == "//": return a // b
    if o == "%": return a % b
    if o == "==": return a == b
    if o == "!=": return a != b
    if o == "<=": return a <= b
    if o == "<": return a < b
    if o == ">=": return a >= b
    if o == ">": return a > b
    return getattr(a, o)(b)


class Table:
    """One object per family, each verified once by listing its members."""
    def __init__(self, ctx, ad, fams):
        self.ctx, self.ad, self.obj = ctx, ad, {}
        for f in fams:
            self.get(f)

    def get(self, f):
        o = self.obj.get(f)
        if o is None:
            self.ctx.case((self.ad.name, self.ad.n, "construct", sorted(f)))
            o = self.obj[f] = self.ad.make(f)
            got = self.ad.masks(o)
            if got != f:
                self.ctx.fail("constructor/iteration", sorted(f), sorted(got))
        return o


def same(ctx, tab, res, exp, what):
    """The result must equal the reference object and list the same members."""
    if res == tab.get(exp) and not (res != tab.obj[exp]):
        return
    ctx.fail(what, sorted(exp), sorted(tab.ad.masks(res)))


def has(ad, op):
    return hasattr(ad.cls, ad.m.get(op, op))


def run_pairs(ctx, ad, fams, lo, hi, rels=True, listing=False):
    tab = Table(ctx, ad, fams)
    n = ad.n
    ops = [o for o in BIN if has(ad, o)]
    oprs = [o for o in OPR if not (o == "//" and ad.cls is setset)
            and not (o in "/%//" and not has(ad, "quotient"))]
    wr = [o for o in ("including", "excluding", "included") if hasattr(ad.cls, o)]
    for f in fams[lo:hi]:
        a = tab.get(f)
        for g in fams:
            b = tab.get(g)
            for op in ops:
                if op in ("quotient", "remainder") and not g:
                    continue
                ctx.case((ad.name, n, op, sorted(f), sorted(g)))
                exp = bin_expected(op, f, g, n)
                if exp and exp != f:
                    ctx.nt()
                res = getattr(a, ad.m.get(op, op))(b)
                same(ctx, tab, res, exp, op)
                if listing and ad.masks(res) != exp:
                    ctx.fail(op, sorted(exp), sorted(ad.masks(res)))
            for o in oprs:
                if OPR[o] in ("quotient", "remainder") and not g:
                    continue
                ctx.case((ad.name, n, o, sorted(f), sorted(g)))
                same(ctx, tab, opr(a, o, b), bin_expected(OPR[o], f, g, n), o)
            for o in wr:
                ctx.case((ad.name, n, o, sorted(f), sorted(g)))
                exp = {"including": ref.supersets, "excluding": ref.non_supersets,
                       "included": ref.subsets}[o](f, g)
                same(ctx, tab, getattr(a, o)(b), exp, o)
            if rels:
                for o, fn in REL.items():
                    ctx.case((ad.name, n, o, sorted(f), sorted(g)))
                    got = opr(a, o, b)
                    if bool(got) != fn(f, g):
                        ctx.fail("relation " + o, fn(f, g), got)
        # operands must be untouched by everything above
        if ad.masks(a) != f:
            ctx.fail("operand changed by a non-updating operation", sorted(f), sorted(ad.masks(a)))
    for f, o in tab.obj.items():
        if ad.masks(o) != f:
            ctx.fail("operand changed by a non-updating operation", sorted(f), sorted(ad.masks(o)))


def unary_results(ad, f, a):
    """(label, expected, thunk) for every unary operation."""
    n, m = ad.n, ad.m
    full = (1 << n) - 1
    out = []

    def add(label, exp, th):
        out.append((label, exp, th))
    if hasattr(ad.cls, "__invert__"):
        add("~", ref.compl(f, n), lambda: ~a)
    add("minimal", ref.minimal(f), lambda: a.minimal())
    add("maximal", ref.maximal(f), lambda: a.maximal())
    if has(ad, "hitting"):
        add("hitting", ref.hitting(f, n), lambda: a.hitting())
    if hasattr(ad.cls, "blocking"):
        add("blocking", ref.hitting(f, n), lambda: a.blocking())
    if hasattr(ad.cls, "complement") and ad.cls is not setset:
        add("complement", ref.flip_all(f, n), lambda: a.complement())
    for k in range(0, n + 2):
        add("smaller(%d)" % k, ref.smaller(f, k), lambda k=k: a.smaller(k))
        add("larger(%d)" % k, ref.larger(f, k), lambda k=k: a.larger(k))
        add("size(%d)" % k, ref.size(f, k), lambda k=k: getattr(a, m["size"])(k))
        add("len(%d)" % k, ref.size(f, k), lambda k=k: a.len(k))
    if has(ad, "remove_some"):
        add("remove_some", ref.remove_some(f, n), lambda: getattr(a, m["remove_some"])())
        add("add_some", ref.add_some(f, n), lambda: getattr(a, m["add_some"])())
        add("remove_add", ref.remove_add(f, n), lambda: getattr(a, m["remove_add"])())
    add("copy", f, lambda: a.copy())
    add("construct-copy", f, lambda: ad.cls(a))
    add("union()", f, lambda: a.union())
    add("intersection()", f, lambda: a.intersection())
    add("difference()", f, lambda: a.difference())
    for i, e in enumerate(ad.elems):
        if ad.cls is setset:
            add("supersets(elem %d)" % i, ref.with_elem(f, i), lambda e=e: a.supersets(e))
            add("non_supersets(elem %d)" % i, ref.without_elem(f, i), lambda e=e: a.non_supersets(e))
        else:
            add("including(elem %d)" % i, ref.with_elem(f, i), lambda e=e: a.including(e))
            add("excluding(elem %d)" % i, ref.without_elem(f, i), lambda e=e: a.excluding(e))
    if ad.cls is not setset:
        for s in ad.consistent() if hasattr(ad, "consistent") else range(full + 1):
            one = frozenset([s])
            add("including(set %d)" % s, ref.supersets(f, one), lambda s=s: a.including(ad.setarg(s)))
            add("excluding(set %d)" % s, ref.non_supersets(f, one), lambda s=s: a.excluding(ad.setarg(s)))
            add("included(set %d)" % s, ref.subsets(f, one), lambda s=s: a.included(ad.setarg(s)))
    return out


def run_unary(ctx, ad, fams):
    tab = Table(ctx, ad, [])
    for f in fams:
        a = tab.get(f)
        for label, exp, th in unary_results(ad, f, a):
            ctx.case((ad.name, ad.n, label, sorted(f)))
            if exp and exp != f:
                ctx.nt()
            same(ctx, tab, th(), exp, label)
        # fresh objects for the operations that update in place
        for i, e in enumerate(ad.elems):
            if hasattr(ad.cls, "flip"):
                ctx.case((ad.name, ad.n, "flip(elem %d)" % i, sorted(f)))
                c = a.copy()
                c.flip(e)
                same(ctx, tab, c, ref.flip(f, i), "flip(elem)")
        if ad.cls is setset:
            ctx.case((ad.name, ad.n, "flip()", sorted(f)))
            c = a.copy()
            c.flip()
            same(ctx, tab, c, ref.flip_all(f, ad.n), "flip()")
        if ad.masks(a) != f or bool(a) != bool(f) or len(a) != len(f) or a.len() != len(f):
            ctx.fail("operand changed", sorted(f), sorted(ad.masks(a)))
        if len(tab.obj) > 70000:
            tab.obj.clear()


def run_vertexargs(ctx, n):
    """including/excluding a vertex of the universe graph."""
    ad = adapt.adapter("GraphSet", n)
    tab = Table(ctx, ad, [])
    verts = sorted({v for e in ad.elems for v in e})
    for f in ref.families(n) if n <= 3 else ref.families(n, 2):
        a = tab.get(f)
        for v in verts:
            inc = 0
            for i, e in enumerate(ad.elems):
                if v in e:
                    inc |= 1 << i
            ctx.case(("GraphSet", n, "including(vertex %d)" % v, sorted(f)))
            exp = frozenset(s for s in f if s & inc)
            if exp and exp != f:
                ctx.nt()
            same(ctx, tab, a.including(v), exp, "including(vertex)")
            same(ctx, tab, a.excluding(v), f - exp, "excluding(vertex)")


def run_constraints(ctx, name, n):
    """{'include','exclude'} constructor: every pair of disjoint or overlapping element lists."""
    ad = adapt.adapter(name, n)
    tab = Table(ctx, ad, [])
    for inc in range(1 << n):
        for exc in range(1 << n):
            ctx.case((name, n, "constraints", inc, exc))
            if inc & exc:            # contradictory constraints are refused, in every class
                try:
                    r = ad.cls({"include": ad.members(inc), "exclude": ad.members(exc)})
                except (TypeError, ValueError):
                    continue
                if ad.masks(r):
                    ctx.fail("contradictory constraints accepted", "refused or empty", sorted(ad.masks(r)))
                continue
            exp = frozenset(s for s in range(1 << n) if s & inc == inc and not s & exc)
            if exp and len(exp) < 1 << n:
                ctx.nt()
            d = {"include": ad.members(inc), "exclude": ad.members(exc)}
            same(ctx, tab, ad.cls(d), exp, "constraint constructor")
            if not inc:
                same(ctx, tab, ad.cls({"exclude": ad.members(exc)}), exp, "constraint constructor")
            if not exc:
                same(ctx, tab, ad.cls({"include": ad.members(inc)}), exp, "constraint constructor")
    same(ctx, tab, ad.cls({}), ref.allsets(n), "{} constructor")
    same(ctx, tab, ad.cls(), frozenset(), "empty constructor")
    same(ctx, tab, ad.cls([]), frozenset(), "empty constructor")


def structured(n):
    """Families over n elements with sharing patterns that small n cannot show."""
    full = (1 << n) - 1
    out = {}
    for k in range(0, n + 1, max(1, n // 4)):
        out["size=%d" % k] = frozenset(s for s in range(1 << n) if ref.popc(s) == k)
    out["power"] = ref.allsets(n)
    out["chain"] = frozenset((1 << k) - 1 for k in range(n + 1))
    out["rchain"] = frozenset(full & ~((1 << k) - 1) for k in range(n + 1))
    out["even"] = frozenset(s for s in range(1 << n) if ref.popc(s) % 2 == 0)
    out["mod3"] = frozenset(s for s in range(1 << n) if s % 3 == 1)
    out["matching"] = frozenset(s for s in range(1 << n) if not s & (s << 1))
    out["window"] = frozenset(full & (7 << k) for k in range(n))
    out["lowhalf"] = frozenset(range(1 << (n // 2)))
    out["highhalf"] = frozenset(s << (n - n // 2) for s in range(1 << (n // 2)))
    out["top"] = frozenset([full, full ^ 1, full ^ (1 << (n - 1)), full ^ 2])
    out["singles"] = frozenset([0] + [1 << i for i in range(n)])
    return out


def run_structured(ctx, name, n, part, parts):
    ad = adapt.adapter(name, n)
    st = structured(n)
    names = sorted(st)
    tab = Table(ctx, ad, [])
    ops = [o for o in BIN if has(ad, o)]
    heavy = 1 << n
    k = 0
    for x, y in product(names, names):
        k += 1
        if k % parts != part:
            continue
        f, g = st[x], st[y]
        a, b = tab.get(f), tab.get(g)
        for op in ops:
            cost = len(f) * len(g)
            if op in ("join", "meet", "quotient", "remainder", "subsets", "supersets",
                      "non_subsets", "non_supersets") and cost > 300000:
                continue
            ctx.case((name, n, op, x, y), True)
            exp = bin_expected(op, f, g, n)
            same(ctx, tab, getattr(a, ad.m.get(op, op))(b), exp, "%s(%s,%s)" % (op, x, y))
    if part == 0:
        for x in names:
            f = st[x]
            a = tab.get(f)
            if len(f) > 1100:
                continue
            for label, exp, th in unary_results(ad, f, a) if ad.cls is setset else []:
                ctx.case((name, n, label, x), True)
                same(ctx, tab, th(), exp, "%s(%s)" % (label, x))
            for i in range(n):
                c = a.copy()
                c.flip(ad.elems[i])
                ctx.case((name, n, "flip", i, x), True)
                same(ctx, tab, c, ref.flip(f, i), "flip(%d)(%s)" % (i, x))


def run_nary(ctx, name, n, kmax):
    """n-ary forms with two arguments, plus aliasing of the arguments."""
    ad = adapt.adapter(name, n)
    fams = list(ref.families(n, kmax))
    tab = Table(ctx, ad, fams)
    red = {"union": lambda f, l: f.union(*l), "intersection": lambda f, l: f.intersection(*l),
           "difference": lambda f, l: f.difference(*l),
           "symmetric_difference": lambda f, l: f ^ l[0] ^ l[1]}
    for f, g, h in product(fams, repeat=3):
        a, b, c = tab.get(f), tab.get(g), tab.get(h)
        for op, fn in red.items():
            ctx.case((name, n, op + "*2", sorted(f), sorted(g), sorted(h)))
            exp = frozenset(fn(f, [g, h]))
            if exp and exp != f:
                ctx.nt()
            same(ctx, tab, getattr(a, op)(b, c), exp, op + " with two arguments")


class EVS(adapt.Adapter):
    name, cls = "EdgeVertexSetSet", EdgeVertexSetSet
    m = dict(subsets="subgraphs", supersets="supergraphs", non_subsets="non_subgraphs",
             non_supersets="non_supergraphs", size="graph_size")

    def __init__(self, edges):
        self.edges = edges
        self.verts = sorted({v for e in edges for v in e})
        super().__init__(edges + self.verts)

    def setup(self):
        GraphSet.set_universe(self.edges, traversal="as-is")

    def consistent(self):
        r = []
        for s in range(1 << self.n):
            mem = set(self.members(s))
            if all(e not in mem or (e[0] in mem and e[1] in mem) for e in self.edges):
                r.append(s)
        return r


def run_evs(ctx, edges, kmax, part, parts):
    ad = EVS(edges)
    cons = ad.consistent()
    fams = [frozenset(c) for k in range(kmax + 1) for c in combinations(cons, k)]

    class T(Table):
        def get(self, f):
            o = self.obj.get(f)
            if o is None:
                self.ctx.case((ad.name, edges, "construct", sorted(f)))
                if all(s in cset for s in f):
                    o = ad.make(f)
                else:                       # not constructible from a list: build by difference
                    o = None
                self.obj[f] = o
            return o
    cset = set(cons)
    tab = T(ctx, ad, [])
    chunk = fams[part::parts]
    for f in chunk:
        a = tab.get(f)
        if ad.masks(a) != f:
            ctx.fail("EdgeVertexSetSet constructor/iteration", sorted(f), sorted(ad.masks(a)))
        for label, exp, th in unary_results(ad, f, a):
            ctx.case((ad.name, edges, label, sorted(f)))
            if exp and exp != f:
                ctx.nt()
            got = ad.masks(th())
            if got != exp:
                ctx.fail(label, sorted(exp), sorted(got))
        for g in fams:
            b = tab.get(g)
            for op in BIN:
                if not has(ad, op):
                    continue
                ctx.case((ad.name, edges, op, sorted(f), sorted(g)))
                exp = bin_expected(op, f, g, ad.n)
                if exp and exp != f:
                    ctx.nt()
                got = ad.masks(getattr(a, ad.m.get(op, op))(b))
                if got != exp:
                    ctx.fail(op, sorted(exp), sorted(got))
            for o in ("|", "&", "-", "^"):
                ctx.case((ad.name, edges, o, sorted(f), sorted(g)))
                got = ad.masks(opr(a, o, b))
                if got != bin_expected(OPR[o], f, g, ad.n):
                    ctx.fail(o, sorted(bin_expected(OPR[o], f, g, ad.n)), sorted(got))
            for o, fn in REL.items():
                ctx.case((ad.name, edges, o, sorted(f), sorted(g)))
                if bool(opr(a, o, b)) != fn(f, g):
                    ctx.fail("relation " + o, fn(f, g), opr(a, o, b))
            for o, fn in (("including", ref.supersets), ("excluding", ref.non_supersets),
                          ("included", ref.subsets)):
                ctx.case((ad.name, edges, o, sorted(f), sorted(g)))
                got = ad.masks(getattr(a, o)(b))
                if got != fn(f, g):
                    ctx.fail(o, sorted(fn(f, g)), sorted(got))


def u_pairs(ctx, name, n, kmax, part, parts):
    ad = adapt.adapter(name, n)
    fams = list(ref.families(n, kmax))
    step = (len(fams) + parts - 1) // parts
    run_pairs(ctx, ad, fams, part * step, (part + 1) * step, listing=(name != "setset"))


def u_unary(ctx, name, n, kmax, part, parts):
    ad = adapt.adapter(name, n)
    fams = list(ref.families(n, kmax))
    run_unary(ctx, ad, fams[part::parts])


def run_big(ctx, cls, m, fn, gs):
    """scattered and structured families over more elements: all 2^m subsets decided through bitmaps."""
    mm = {"setset": adapt.SS, "GraphSet": adapt.GS, "DiGraphSet": adapt.DS, "VertexSetSet": adapt.VS}[cls].m
    U = bigref.Uni(cls, m)
    P = bigref.pool(m)
    f = P[fn]
    a = U.make(f)
    U.check(ctx, "loads/dumps", a, f)

    def t(label, gn, exp, th):
        ctx.case((cls, m, label, fn, gn), bool(exp.any()) and not exp.all())
        U.check(ctx, "%s(%s,%s)" % (label, fn, gn), th(), exp)
    for gn in gs:
        g = P[gn]
        b = U.make(g)
        up, down = bigref.count(g, True), bigref.count(g, False)
        small = int(g.sum()) <= 400
        exps = {"union": f | g, "intersection": f & g, "difference": f & ~g, "symmetric_difference": f ^ g, "join": bigref.join(f, g),
                "meet": bigref.meet(f, g), "subsets": f & (down > 0), "supersets": f & (up > 0), "non_subsets": f & (down == 0), "non_supersets": f & (up == 0)}
        if small:
            q = bigref.quotient(f, g)
            exps.update(quotient=q, remainder=f & ~bigref.join(g, q))
        for op, exp in exps.items():
            meth = getattr(a, mm.get(op, op))
            t(op, gn, exp, lambda: meth(b))
        for label, got, exp in (("<=", a <= b, not (f & ~g).any()), ("<", a < b, not (f & ~g).any() and (g & ~f).any()), ("==", a == b, np.array_equal(f, g)),
                                ("isdisjoint", a.isdisjoint(b), not (f & g).any())):
            ctx.case((cls, m, label, fn, gn), True)
            if bool(got) != bool(exp):
                ctx.fail("%s(%s,%s)" % (label, fn, gn), bool(exp), got)
        U.check(ctx, "the second operand", b, g)
    pc = bigref.popcount(m)
    up, down = bigref.count(f, True), bigref.count(f, False)
    t("minimal", "", f & (up == 1), lambda: a.minimal())
    t("maximal", "", f & (down == 1), lambda: a.maximal())
    t("hitting", "", up[::-1] == 0, lambda: a.hitting() if hasattr(a, "hitting") else a.blocking())
    t("~", "", ~f, lambda: ~a)
    for k in range(0, m + 2, 1 if m < 13 else 3):
        t("smaller", k, f & (pc < k), lambda: a.smaller(k))
        t("larger", k, f & (pc > k), lambda: a.larger(k))
        t("size", k, f & (pc == k), lambda: getattr(a, mm["size"])(k))
    t("remove_some", "", bigref.removed(f), lambda: getattr(a, mm["remove_some"])())
    t("add_some", "", bigref.added(f), lambda: getattr(a, mm["add_some"])())
    t("remove_add", "", bigref.swapped(f), lambda: getattr(a, mm["remove_add"])())
    for i, e in enumerate(U.elems):
        c = a.copy()
        c.flip(e)
        t("flip", i, bigref.move(f, i, "flip"), lambda: c)
        if cls == "setset":
            t("supersets(element)", i, bigref.move(f, i, "with"), lambda: a.supersets(e))
            t("non_supersets(element)", i, bigref.move(f, i, "without"), lambda: a.non_supersets(e))
        else:
            t("including", i, bigref.move(f, i, "with"), lambda: a.including(e))
            t("excluding", i, bigref.move(f, i, "without"), lambda: a.excluding(e))
    U.check(ctx, "the operand", a, f)


def run_wide(ctx, cls, total, places, gs):
    """families over a few elements at the far positions of a universe of many elements."""
    mm = {"setset": adapt.SS, "GraphSet": adapt.GS, "DiGraphSet": adapt.DS, "VertexSetSet": adapt.VS}[cls].m
    U = bigref.Wide(cls, total, places)
    m = U.m
    P = bigref.pool(m)
    power = U.make(P["all"])
    pc = bigref.popcount(m)

    def t(label, args, exp, th):
        ctx.case((cls, total, places, label) + args, bool(exp.any()) and not exp.all())
        U.check(ctx, "%s%r" % (label, args), th(), exp)
    for fn, f in P.items():
        a = U.make(f)
        up, down = bigref.count(f, True), bigref.count(f, False)
        t("loads", (fn,), f, lambda: a)
        for gn in gs:
            g = P[gn]
            b = U.make(g)
            gu, gd = bigref.count(g, True), bigref.count(g, False)
            exps = {"union": f | g, "intersection": f & g, "difference": f & ~g, "symmetric_difference": f ^ g, "join": bigref.join(f, g), "meet": bigref.meet(f, g),
                    "subsets": f & (gd > 0), "supersets": f & (gu > 0), "non_subsets": f & (gd == 0), "non_supersets": f & (gu == 0)}
            q = bigref.quotient(f, g)
            exps.update(quotient=q, remainder=f & ~bigref.join(g, q))
            for op, exp in exps.items():
                t(op, (fn, gn), exp, lambda: getattr(a, mm.get(op, op))(b))
        t("minimal", (fn,), f & (up == 1), lambda: a.minimal())
        t("maximal", (fn,), f & (down == 1), lambda: a.maximal())
        for k in range(m + 2):
            t("smaller", (fn, k), f & (pc < k), lambda: a.smaller(k))
            t("larger", (fn, k), f & (pc > k), lambda: a.larger(k))
            t("size", (fn, k), f & (pc == k), lambda: getattr(a, mm["size"])(k))
        t("remove_some", (fn,), bigref.removed(f), lambda: getattr(a, mm["remove_some"])())
        if total < 2000:                         # deeper results meet the recursion limit of the diagram library
            t("remove_add", (fn,), bigref.swapped(f), lambda: getattr(a, mm["remove_add"])() & power)
            t("add_some", (fn,), bigref.added(f), lambda: getattr(a, mm["add_some"])() & power)
            t("~", (fn,), ~f, lambda: ~a & power)
            t("hitting", (fn,), up[::-1] == 0, lambda: (a.hitting() if hasattr(a, "hitting") else a.blocking()) & power)
        w = [(-1) ** i * (i + 1) for i in range(m)]
        costs = dict.fromkeys(U.cls.universe(), 0)
        costs.update(zip(U.elems, w))
        tot = bigref.linear(w)
        for b in (-2, 0, 3):
            t("cost_le", (fn, b), f & (tot <= b), lambda: a.cost_le(costs, b))
        for i, e in enumerate(U.elems):
            c = a.copy()
            c.flip(e)
            t("flip", (fn, i), bigref.move(f, i, "flip"), lambda: c)
            ctx.case((cls, total, "element in", fn, i), True)
            if (e in a) != bool(bigref.move(f, i, "with").any()):
                ctx.fail("element in the family", not (e in a), e in a)
        for s in range(0, 1 << m, 3):
            x = U.subset(s)
            if ((set(x) if cls == "setset" else x) in a) != bool(f[s]):
                ctx.fail("membership", bool(f[s]), s)
        got = sorted(tuple(sorted(map(repr, s))) for s in a)
        if got != sorted(tuple(sorted(map(repr, U.subset(s)))) for s in np.flatnonzero(f).tolist()):
            ctx.fail("iteration of %s" % fn, int(f.sum()), len(got))


FAR = [(300, (1, 2, 127, 128, 129, 255, 256, 257, 300)), (700, (1, 126, 253, 254, 255, 510, 511, 512, 513))]


def u_deep(ctx, n):
    """diagrams as deep as the library walks them: members of up to n elements."""
    setset.set_universe(range(n))
    full, cut, some = frozenset(range(n)), frozenset(range(n - 1)), frozenset(range(0, n, 2))
    F = {"full": {full}, "cut": {cut}, "both": {full, cut}, "some": {some}, "three": {full, cut, some}, "empty": {frozenset()}}
    mk = lambda f: setset([set(s) for s in f])
    for (na, a), (nb, b) in product(F.items(), repeat=2):
        x, y = mk(a), mk(b)
        for name, got, exp in (("|", x | y, a | b), ("&", x & y, a & b), ("-", x - y, a - b), ("^", x ^ y, a ^ b),
                               ("join", x.join(y), {s | t for s in a for t in b}), ("meet", x.meet(y), {s & t for s in a for t in b}),
                               ("subsets", x.subsets(y), {s for s in a if any(s <= t for t in b)}),
                               ("supersets", x.supersets(y), {s for s in a if any(s >= t for t in b)}),
                               ("non_subsets", x.non_subsets(y), {s for s in a if not any(s <= t for t in b)}),
                               ("maximal", x.maximal(), {s for s in a if not any(s < t for t in a)}),
                               ("minimal", x.minimal(), {s for s in a if not any(s > t for t in a)})):
            ctx.case(("deep", n, na, name, nb), bool(exp))
            l = [frozenset(s) for s in got]
            if len(l) != len(exp) or set(l) != exp or len(got) != len(exp):
                ctx.fail("members", [len(s) for s in exp], [len(s) for s in l])


def u_limit(ctx, n):
    """one level more ends the process (a listed finding): in a process of its own."""
    ctx.case(("limit", n), True)
    r = subprocess.run([sys.executable, "-c", "from graphillion import setset\nsetset.set_universe(range(%d))\nprint(len(setset([range(%d)])))" % (n, n)],
                       env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path)), capture_output=True, text=True)
    if r.returncode or r.stdout.split() != ["1"]:
        ctx.fail("the process ended", 0, (r.returncode, r.stderr[-300:]), key="deep-%d" % n if "BDD_RECUR_INC" in r.stderr else None)


def units(tier):
    q = tier == "quick"
    u = [Unit("deep/%d" % n, u_deep, (n,), seq=True) for n in ((8191,) if q else (4000, 8190, 8191))] + [Unit("limit/8193", u_limit, (8193,))]
    names = list(bigref.pool(8))
    for cls in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        for total, places in FAR:
            for k in range(3):
                u.append(Unit("wide-%s-%d-%d" % (cls, total, k), run_wide, (cls, total, places, names[k::3] if tier != "quick" else names[k::5]), timeout=3000, seq=True))
    for total, places in [(33000, (1, 255, 256, 257, 16384, 32767, 32768, 32769, 33000))] + ([] if tier == "quick" else [(65535, (1, 2, 32767, 32768, 32769, 65533, 65534, 65535))]):
        u.append(Unit("wide-setset-%d" % total, run_wide, ("setset", total, places, names[2::5]), timeout=3000, seq=True))
    for cls, m, step in [("setset", 10, 1), ("setset", 14, 3), ("GraphSet", 12, 4), ("VertexSetSet", 11, 4), ("DiGraphSet", 11, 4)] + \
            ([] if q else [("setset", 13, 1), ("setset", 16, 2), ("GraphSet", 14, 1), ("VertexSetSet", 14, 1)]):
        for k, fn in enumerate(names):
            u.append(Unit("big-%s-%d-%s" % (cls, m, fn), run_big, (cls, m, fn, names[k % step::step]), timeout=3000))
    for p in range(16):
        u.append(Unit("setset-pairs3-%d" % p, u_pairs, ("setset", 3, None, p, 16)))
    for p in range(8):
        u.append(Unit("setset-pairs4-%d" % p, u_pairs, ("setset", 4, 2 if q else 3, p, 8)))
    np = 64
    for p in range(np):
        if q and p % 8:
            continue
        u.append(Unit("setset-unary4-%d" % p, u_unary, ("setset", 4, None, p, np)))
    u.append(Unit("setset-unary5", u_unary, ("setset", 5, 2, 0, 1)))
    u.append(Unit("setset-unary3", u_unary, ("setset", 3, None, 0, 1)))
    u.append(Unit("setset-unary2", u_unary, ("setset-mixed", 2, None, 0, 1)))
    for name in ("setset-mixed", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str"):
        parts = 2 if q else 16
        for p in range(parts):
            u.append(Unit("%s-pairs-%d" % (name, p), u_pairs, (name, 3, 2 if q else None, p, parts)))
        u.append(Unit("%s-unary" % name, u_unary, (name, 3, None, 0, 1)))
        u.append(Unit("%s-unary4" % name, u_unary, (name, 4, 2, 0, 1)))
        u.append(Unit("%s-constraints" % name, run_constraints, (name, 4)))
        u.append(Unit("%s-nary" % name, run_nary, (name, 2, 2)))
        if name != "setset-mixed":
            u.append(Unit("%s-structured" % name, run_structured, (name, 6, 0, 1)))
    u.append(Unit("setset-constraints5", run_constraints, ("setset", 5)))
    u.append(Unit("setset-nary", run_nary, ("setset", 2, None)))
    u.append(Unit("GraphSet-vertex3", run_vertexargs, (3,)))
    u.append(Unit("GraphSet-vertex4", run_vertexargs, (4,)))
    for n in (7, 9) if q else (7, 8, 9, 10, 11):
        for p in range(4):
            u.append(Unit("setset-structured%d-%d" % (n, p), run_structured, ("setset", n, p, 4)))
    u.append(Unit("evs-1", run_evs, ([(1, 2)], 5, 0, 1)))
    parts = 4 if q else 16
    for p in range(parts):
        u.append(Unit("evs-2-%d" % p, run_evs, ([(1, 2), (2, 3)], 2 if not q else 1, p, parts)))
    u.append(Unit("evs-3", run_evs, ([(1, 2), (1, 3), (2, 3)], 1, 0, 1)))
    return u
