"""C02: update histories against a plain set of sets.

The specification is an explicit transition system: a state is the family an
object holds (all 2^(2^n) families over n elements), a transition is one updating
call.  Every (state, call) pair of the bounded system is executed on a fresh copy
of a real object that is in that state and compared (next family, return value,
exception, untouched copies and operands); then paths through the system are
replayed on one living object, and two-variable heap histories bind aliasing."""
import copy
from itertools import product
from vrun import Unit
import bigref, ref
from adapt import adapter
from c01_algebra import EVS
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet

PROPERTY, LEVEL, VARIANT = "C02", "model_checking", "ext"
TECHNIQUE = "explicit-state model of an updatable family (all families over 3 elements x all updating calls), every transition replayed on the real classes, plus exhaustive call histories"
NOTE = ("The model's complete transition relation within the bounds is executed on the real objects, one fresh object per transition; all paths of the "
        "bounded depth run on one living object; larger universes are covered by structured states only.")
RULE = ("one evaluation = one updating call executed on a real object in a known state and compared with the model (next family, return value or "
        "KeyError, operands and copies untouched); non-trivial if the model's next state differs from the state")
ASSUMPTIONS = ["quotient_update/remainder_update by the empty family are refused calls (C19)"]
BOUNDS = {"quick": "all 256 families over 3 elements x the whole call alphabet for setset (all 256 operands), GraphSet, DiGraphSet, VertexSetSet (int "
                   "and str vertices) and EdgeVertexSetSet (32 operands); all histories of length 4 over a 14-call alphabet on one object; all two-variable heap "
                   "histories of length 4; structured states over 9 elements"
                   "; all histories of 2 of 41 calls from 6 states over 11 elements and over elements up to position 290",
          "thorough": "all 256 operands for every class; histories of length 5"}

REPS = [0, 1, 2, 3, 4, 6, 8, 15, 16, 24, 32, 51, 64, 85, 96, 102, 104, 105, 127, 128, 129, 136, 150, 160, 170, 192, 204, 216, 232, 240, 254, 255]


def fam_of(bits):
    return frozenset(i for i in range(256) if bits >> i & 1)


KEYERR = object()


class Spec:
    """The call alphabet: (label, call(obj, table), model(family) -> (kind, value, next))."""

    def __init__(self, ad, others):
        self.ad, n = ad, ad.n
        self.calls = c = []
        N = 1 << n
        evs = ad.cls is EdgeVertexSetSet

        def add(label, call, model):
            c.append((label, call, model))

        def none(fn):
            return lambda f: ("none", None, fn(f))

        def key(test, fn):
            return lambda f: ("none", None, fn(f)) if test(f) else ("key", None, f)
        forms = [("list", list)] if ad.cls is not setset else [("set", set), ("frozenset", frozenset)]
        if ad.cls is not setset:
            forms += [("set", set), ("frozenset", frozenset)]
        if ad.cls in (GraphSet, EdgeVertexSetSet):
            forms.append(("reversed edges", lambda l: [tuple(reversed(e)) if isinstance(e, tuple) else e for e in l]))
        for s in range(N):
            for fname, form in forms:
                arg = form(ad.members(s))
                add(("add", fname, s), lambda x, T, a=arg: x.add(a), none(lambda f, s=s: f | {s}))
                add(("remove", fname, s), lambda x, T, a=arg: x.remove(a), key(lambda f, s=s: s in f, lambda f, s=s: f - {s}))
                add(("discard", fname, s), lambda x, T, a=arg: x.discard(a), none(lambda f, s=s: f - {s}))
        for i in range(n):
            e = ad.elems[i]
            has = lambda f, i=i: any(s >> i & 1 for s in f)
            if evs:
                if not isinstance(e, tuple):
                    add(("add_vertex", i), lambda x, T, e=e: x.add_vertex(e), none(lambda f, i=i: ref.graft(f, i)))
                continue
            es = [("", e)]
            if ad.cls is GraphSet:
                es += [(" reversed", (e[1], e[0])), (" weighted", e + (2.5,))]
            for t, a in es:
                add(("add elem" + t, i), lambda x, T, a=a: x.add(a), none(lambda f, i=i: ref.graft(f, i)))
                add(("remove elem" + t, i), lambda x, T, a=a: x.remove(a), key(has, lambda f, i=i: ref.prune(f, i)))
                add(("discard elem" + t, i), lambda x, T, a=a: x.discard(a), none(lambda f, i=i: ref.prune(f, i)))
                add(("flip" + t, i), lambda x, T, a=a: x.flip(a), none(lambda f, i=i: ref.flip(f, i)))
        if ad.cls is setset:
            add(("flip all",), lambda x, T: x.flip(), none(lambda f: ref.flip_all(f, n)))
        if ad.cls in (GraphSet, DiGraphSet):
            verts = sorted({v for e in ad.elems for v in e})
            for v in verts:
                inc = sum(1 << i for i, e in enumerate(ad.elems) if v in e)
                cut = lambda f, inc=inc: frozenset(s & ~inc for s in f)
                add(("remove vertex", v), lambda x, T, v=v: x.remove(v), key(lambda f, inc=inc: any(s & inc for s in f), cut))
                add(("discard vertex", v), lambda x, T, v=v: x.discard(v), none(cut))
        add(("pop",), lambda x, T: x.pop(), lambda f: ("pop", None, None) if f else ("key", None, f))
        add(("clear",), lambda x, T: x.clear(), none(lambda f: frozenset()))
        # the setset methods return None like Python's, the wrapper classes return self
        ret = "none" if ad.cls is setset else "self"
        U = {"update": lambda f, g: f | g, "intersection_update": lambda f, g: f & g, "difference_update": lambda f, g: f - g,
             "symmetric_difference_update": lambda f, g: f ^ g}
        for name, fn in U.items():
            add((name, "no argument"), lambda x, T, m=name: getattr(x, m)(), lambda f: (ret, None, f))
            add((name, "itself"), lambda x, T, m=name: getattr(x, m)(x), lambda f, fn=fn: (ret, None, fn(f, f)))
            add((name, "itself twice"), lambda x, T, m=name: getattr(x, m)(x, x), lambda f, fn=fn: (ret, None, self.twice(fn, f)))
            for g in others:
                add((name, sorted(g)), lambda x, T, m=name, g=g: getattr(x, m)(T.get(g)), lambda f, fn=fn, g=g: (ret, None, fn(f, g)))
            for g, h in zip(others[::5], others[3::5]):
                add((name, sorted(g), sorted(h)), lambda x, T, m=name, g=g, h=h: getattr(x, m)(T.get(g), T.get(h)),
                    lambda f, fn=fn, g=g, h=h: (ret, None, fn(fn(f, g), h)))
        I = {"|=": lambda f, g: f | g, "&=": lambda f, g: f & g, "-=": lambda f, g: f - g, "^=": lambda f, g: f ^ g}
        if not evs:
            I["/="] = lambda f, g: ref.quotient(f, g, n)
            I["%="] = lambda f, g: ref.remainder(f, g, n)
            if ad.cls is not setset:
                I["//="] = I["/="]
        for o, fn in I.items():
            add((o, "itself"), lambda x, T, o=o: inplace(x, o, x), lambda f, fn=fn, o=o: ("self", None, fn(f, f)) if f or o not in "/=%=//=" else ("skip", None, f))
            for g in others:
                if not g and o in ("/=", "%=", "//="):
                    continue
                add((o, sorted(g)), lambda x, T, o=o, g=g: inplace(x, o, T.get(g)), lambda f, fn=fn, g=g: ("self", None, fn(f, g)))
        if hasattr(ad.cls, "quotient_update"):
            for name, fn in (("quotient_update", I["/="]), ("remainder_update", I["%="])):
                for g in others[::3]:
                    if g:
                        add((name, sorted(g)), lambda x, T, m=name, g=g: getattr(x, m)(T.get(g)), lambda f, fn=fn, g=g: ("any", None, fn(f, g)))

    @staticmethod
    def twice(fn, f):
        r = fn(f, f)
        return fn(r, r)       # the argument is the object itself, as with Python's set


def inplace(x, o, y):
    if o == "|=": x |= y
    elif o == "&=": x &= y
    elif o == "-=": x -= y
    elif o == "^=": x ^= y
    elif o == "/=": x /= y
    elif o == "//=": x //= y
    elif o == "%=": x %= y
    return x


class Table:
    def __init__(self, ctx, ad):
        self.ctx, self.ad, self.obj = ctx, ad, {}

    def get(self, f):
        o = self.obj.get(f)
        if o is None:
            ad = self.ad
            if ad.cls is EdgeVertexSetSet:
                o = ad.cls([])
                for s in sorted(f):
                    o.add(ad.members(s))
            else:
                o = ad.make(f)
            self.obj[f] = o
            if ad.masks(o) != f:
                self.ctx.fail("constructing the state", sorted(f), sorted(ad.masks(o)))
        return o


def apply(ctx, T, label, call, model, x, f):
    """one transition: call on x (holding f); returns the next family."""
    ad = T.ad
    kind, _, nxt = model(f)
    if kind == "skip":
        return f
    try:
        r = call(x, T)
        raised = None
    except KeyError as e:
        raised, r = e, None
    if kind == "key":
        if raised is None:
            ctx.fail("no KeyError from %r" % (label,), "KeyError", r)
        if ad.masks(x) != f:
            ctx.fail("the object changed although %r raised" % (label,), sorted(f), sorted(ad.masks(x)))
        return f
    if raised is not None:
        ctx.fail("KeyError from %r" % (label,), sorted(nxt or []), repr(raised))
    if kind == "none" and r is not None:
        ctx.fail("return value of %r" % (label,), None, r)
    if kind == "self" and r is not x:
        ctx.fail("return value of %r" % (label,), "the object itself", r)
    if kind == "pop":
        m = ad.mask(r)
        if m not in f:
            ctx.fail("pop delivered a set that is no member", sorted(f), m)
        nxt = f - {m}
    return nxt


def holds(T, x, f):
    o = T.get(f)
    return x == o and not x != o


def u_trans(ctx, cls, n, part, parts, full):
    ad = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, n)
    others = [fam_of(b) for b in (range(256) if full else REPS)]
    spec = Spec(ad, others)
    T = Table(ctx, ad)
    for b in range(256):
        T.get(fam_of(b))
    for b in range(part, 256, parts):
        f = fam_of(b)
        base = T.get(f)
        ctx.states += 1
        twin = base.copy()
        for label, call, model in spec.calls:
            ctx.case((ad.name, n, label, "on", sorted(f)))
            x = base.copy()
            nxt = apply(ctx, T, label, call, model, x, f)
            ctx.transitions += 1
            ctx.evals += 0
            if nxt != f:
                ctx.nt()
            if not holds(T, x, nxt):
                ctx.fail("family after the call", sorted(nxt), sorted(ad.masks(x)))
            if len(x) != len(nxt):
                ctx.fail("len() after the call", len(nxt), len(x))
        ctx.case((ad.name, n, "copies", sorted(f)))
        if ad.masks(base) != f or ad.masks(twin) != f:
            ctx.fail("a copy changed when the other was updated", sorted(f), (sorted(ad.masks(base)), sorted(ad.masks(twin))))
    for f, o in T.obj.items():
        if ad.masks(o) != f:
            ctx.fail("an operand was changed", sorted(f), sorted(ad.masks(o)))


def small_alphabet(ad, cls):
    """calls for histories: labels refer to Spec's alphabet."""
    def want(l):
        if l[0] in ("add", "discard", "remove") and l[1] in ("list", "set"):
            if l[1] == "set" and ad.cls is not setset:
                return False
            return (l[0], l[2]) in (("add", 3), ("add", 0), ("add", 5), ("remove", 3), ("discard", 0))
        if l[0] in ("pop", "flip all"):
            return True
        if l[0] in ("add elem", "remove elem"):
            return l[1] == 1
        if l[0] == "flip":
            return l[1] == 0
        if l[0] == "remove vertex":
            return l[1] == 2
        if l[0] in ("|=", "-=", "^=") and l[1] == [1, 3, 6]:
            return True
        if l[0] in ("&=", "/=") and l[1] == [0, 2, 3, 7]:
            return True
        if l[0] == "symmetric_difference_update" and l[1] == "itself":
            return True
        return False
    return want


def u_hist(ctx, cls, depth, start, first):
    n = 3
    ad = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, n)
    others = [frozenset([1, 3, 6]), frozenset([0, 2, 3, 7])]
    spec = Spec(ad, others)
    want = small_alphabet(ad, cls)
    calls = [c for c in spec.calls if want(c[0])]
    T = Table(ctx, ad)
    if first >= len(calls):
        return
    seen = set()
    for rest in product(range(len(calls)), repeat=depth - 1):
        h = (first,) + rest
        ctx.case((ad.name, "history from", sorted(start), [calls[i][0] for i in h]))
        f = frozenset(start)
        x = T.get(f).copy()
        snap, snapf = x, f
        for k, i in enumerate(h):
            label, call, model = calls[i]
            if k == depth // 2:
                snap, snapf = x.copy(), f
            f = apply(ctx, T, label, call, model, x, f)
            ctx.transitions += 1
            seen.add(f)
        ctx.traces += 1
        if len(set(h)) > 1:
            ctx.nt()
        if not holds(T, x, f):
            ctx.fail("family after the history", sorted(f), sorted(ad.masks(x)))
        if snap is not x and not holds(T, snap, snapf):
            ctx.fail("the copy taken during the history changed", sorted(snapf), sorted(ad.masks(snap)))
    ctx.states += len(seen)
    for f, o in T.obj.items():
        if ad.masks(o) != f:
            ctx.fail("an operand was changed", sorted(f), sorted(ad.masks(o)))


# --- heap histories: two variables, aliasing, copies, operands that are the object itself ---

def shallow(x):
    """copy.copy(x), or x.copy() if that is refused"""
    try:
        return copy.copy(x)
    except TypeError:
        return x.copy()


def heap_ops(ad):
    s = ad.members(1)
    t = ad.members(3)
    e = ad.elems[1]

    def o(name, real, model):
        return (name, real, model)
    return [
        o("y=x", lambda h: h.__setitem__(1, h[0]), lambda m: m.__setitem__(1, m[0])),
        o("y=x.copy()", lambda h: h.__setitem__(1, h[0].copy()), lambda m: m.__setitem__(1, set(m[0]))),
        o("y=copy.copy(x)", lambda h: h.__setitem__(1, shallow(h[0])), lambda m: m.__setitem__(1, set(m[0]))),
        o("x=Class(y)", lambda h: h.__setitem__(0, ad.cls(h[1])), lambda m: m.__setitem__(0, set(m[1]))),
        o("x|=y", lambda h: h.__setitem__(0, inplace(h[0], "|=", h[1])), lambda m: m[0].update(m[1])),
        o("x^=y", lambda h: h.__setitem__(0, inplace(h[0], "^=", h[1])), lambda m: m[0].symmetric_difference_update(set(m[1]))),
        o("y-=x", lambda h: h.__setitem__(1, inplace(h[1], "-=", h[0])), lambda m: m[1].difference_update(set(m[0]))),
        o("y&=x", lambda h: h.__setitem__(1, inplace(h[1], "&=", h[0])), lambda m: m[1].intersection_update(set(m[0]))),
        o("x=x|y", lambda h: h.__setitem__(0, h[0] | h[1]), lambda m: m.__setitem__(0, m[0] | m[1])),
        o("x.add(1)", lambda h: h[0].add(ad.setarg(1)), lambda m: m[0].add(1)),
        o("y.add(3)", lambda h: h[1].add(ad.setarg(3)), lambda m: m[1].add(3)),
        o("y.discard(1)", lambda h: h[1].discard(ad.setarg(1)), lambda m: m[1].discard(1)),
        o("x.update(y,y)", lambda h: h[0].update(h[1], h[1]), lambda m: m[0].update(m[1])),
        o("x.symmetric_difference_update(y)", lambda h: h[0].symmetric_difference_update(h[1]), lambda m: m[0].symmetric_difference_update(set(m[1]))),
        o("y=~x" if ad.cls is not EdgeVertexSetSet else "y=x-x",
          (lambda h: h.__setitem__(1, ~h[0])) if ad.cls is not EdgeVertexSetSet else (lambda h: h.__setitem__(1, h[0] - h[0])),
          (lambda m: m.__setitem__(1, set(range(1 << ad.n)) - m[0])) if ad.cls is not EdgeVertexSetSet else (lambda m: m.__setitem__(1, set()))),
        o("x.clear()", lambda h: h[0].clear(), lambda m: m[0].clear()),
    ]


def u_heap(ctx, cls, depth, first):
    ad = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, 2)
    ops = heap_ops(ad)
    T = Table(ctx, ad)
    states = set()
    for rest in product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + rest
        ctx.case((ad.name, "heap history", [ops[i][0] for i in seq]))
        h = [T.get(frozenset([0, 2])).copy(), T.get(frozenset([2, 3])).copy()]
        m = [{0, 2}, {2, 3}]
        for i in seq:
            ops[i][1](h)
            ops[i][2](m)
            ctx.transitions += 1
        states.add((frozenset(m[0]), frozenset(m[1]), m[0] is m[1]))
        ctx.traces += 1
        if len(set(seq)) > 1:
            ctx.nt()
        for k in (0, 1):
            if not holds(T, h[k], frozenset(m[k])):
                ctx.fail("variable %s after the history" % "xy"[k], sorted(m[k]), sorted(ad.masks(h[k])))
        if (h[0] is h[1]) != (m[0] is m[1]):
            ctx.fail("identity of the two variables", m[0] is m[1], h[0] is h[1])
    ctx.states += len(states)


def u_big(ctx, cls):
    """structured states over 9 elements: every call with every structured set and operand."""
    n = 9
    ad = adapter(cls, n)
    N = 1 << n
    pc = lambda i: bin(i).count("1")
    fams = [frozenset(x) for x in ([], [0], [N - 1], range(N), [i for i in range(N) if pc(i) == 2], [i for i in range(N) if pc(i) % 2],
                                   [1 << i for i in range(n)], [i for i in range(N) if not i & (i >> 1)], [i for i in range(N) if i % 7 == 3])]
    sets = [0, 1, N - 1, 0x155, 0x0AA, 1 << (n - 1), 7, 0x1C0]
    T = Table(ctx, ad)
    for f in fams:
        for s in sets:
            for name in ("add", "remove", "discard"):
                ctx.case((ad.name, n, name, s, "structured", len(f)))
                x = T.get(f).copy()
                exp = f | {s} if name == "add" else f - {s}
                try:
                    getattr(x, name)(ad.setarg(s))
                    if name == "remove" and s not in f:
                        ctx.fail("no KeyError", "KeyError", None)
                except KeyError:
                    if name != "remove" or s in f:
                        ctx.fail("KeyError", sorted(exp)[:50], "KeyError")
                ctx.transitions += 1
                if exp != f:
                    ctx.nt()
                if ad.masks(x) != exp:
                    ctx.fail("family after the call", sorted(exp), sorted(ad.masks(x)))
        for i in range(n):
            for name, fn in (("add", ref.graft), ("discard", ref.prune), ("flip", ref.flip)):
                ctx.case((ad.name, n, name, "elem", i, "structured", len(f)))
                x = T.get(f).copy()
                getattr(x, name)(ad.elems[i])
                exp = fn(f, i)
                ctx.transitions += 1
                if ad.masks(x) != exp:
                    ctx.fail("family after the call", sorted(exp), sorted(ad.masks(x)))
        x = T.get(f).copy()
        g = set(f)
        ctx.case((ad.name, n, "pop until empty", len(f)), bool(f))
        while g:
            m = ad.mask(x.pop())
            if m not in g:
                ctx.fail("pop delivered a set that is no member (or twice)", len(g), m)
            g.discard(m)
            ctx.transitions += 1
            if len(x) != len(g):
                ctx.fail("len() after pop", len(g), len(x))
        try:
            x.pop()
            ctx.fail("no KeyError from pop of an empty family", "KeyError", None)
        except KeyError:
            pass
        for g in fams:
            for o in ("|=", "&=", "-=", "^="):
                ctx.case((ad.name, n, o, "structured", len(f), len(g)))
                x = T.get(f).copy()
                y = inplace(x, o, T.get(g))
                exp = {"|=": f | g, "&=": f & g, "-=": f - g, "^=": f ^ g}[o]
                ctx.transitions += 1
                if y is not x or ad.masks(x) != exp:
                    ctx.fail("in-place " + o, sorted(exp), sorted(ad.masks(x)))
        ctx.states += 1


CLS = ["setset", "setset-mixed", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str", "EdgeVertexSetSet"]


def u_bits(ctx, cls, m, start, depth, far):
    """all histories of `depth` calls over a larger universe on one object, families as bitmaps."""
    np = bigref.np
    U = bigref.Wide(cls, far, [1 + i * (far - 1) // (m - 1) for i in range(m)]) if far else bigref.Uni(cls, m)
    P = bigref.pool(m)
    objs = {k: U.make(f) for k, f in P.items()}
    pos = {e: 1 << (m - 1 - i) for i, e in enumerate(U.elems)}
    form = set if cls == "setset" else list

    def one(f, s, on):
        f = f.copy()
        f[s] = on
        return f
    calls = []
    for o, fn in (("|=", lambda f, g: f | g), ("&=", lambda f, g: f & g), ("-=", lambda f, g: f & ~g), ("^=", lambda f, g: f ^ g)):
        for k in ("half", "layer", "sparse", "spaced"):
            calls.append(((o, k), lambda x, o=o, k=k: inplace(x, o, objs[k]), lambda f, fn=fn, k=k: fn(f, P[k])))
    for k in ("two", "singles"):
        q = lambda f, k=k: bigref.quotient(f, P[k])
        calls.append((("/=", k), lambda x, k=k: inplace(x, "/=", objs[k]), q))
        calls.append((("%=", k), lambda x, k=k: inplace(x, "%=", objs[k]), lambda f, k=k, q=q: f & ~bigref.join(P[k], q(f))))
    calls.append((("update", 2), lambda x: x.update(objs["few"], objs["heavy"]), lambda f: f | P["few"] | P["heavy"]))
    calls.append((("difference_update", 2), lambda x: x.difference_update(objs["even"], objs["two"]), lambda f: f & ~P["even"] & ~P["two"]))
    calls.append((("intersection_update", 2), lambda x: x.intersection_update(objs["quarter"], objs["layers"]), lambda f: f & P["quarter"] & P["layers"]))
    for s in (0, (1 << m) - 1, 5 << (m - 4), 1):
        calls.append((("add", s), lambda x, s=s: x.add(form(U.subset(s))), lambda f, s=s: one(f, s, True)))
        calls.append((("discard", s), lambda x, s=s: x.discard(form(U.subset(s))), lambda f, s=s: one(f, s, False)))
    for i in (0, m // 2, m - 1):
        e = U.elems[i]
        calls.append((("add elem", i), lambda x, e=e: x.add(e), lambda f, i=i: bigref.move(f, i, "graft")))
        calls.append((("discard elem", i), lambda x, e=e: x.discard(e), lambda f, i=i: bigref.move(f, i, "prune")))
        calls.append((("flip", i), lambda x, e=e: x.flip(e), lambda f, i=i: bigref.move(f, i, "flip")))
    calls.append((("pop",), None, None))
    for h in product(range(len(calls)), repeat=depth):
        x = objs[start].copy()
        f = P[start]
        for k, c in enumerate(h):
            label, call, model = calls[c]
            ctx.case((cls, m, far, start, [calls[i][0] for i in h[:k + 1]]), True)
            if call is None:
                if not f.any():
                    break
                s = sum(pos[e] for e in x.pop())
                if not f[s]:
                    ctx.fail("pop delivered a set that is no member", None, s)
                f = one(f, s, False)
            else:
                if label[0] in ("/=", "%=") and f.sum() > 3000 and k:
                    break
                r = call(x)
                if label[0] in ("|=", "&=", "-=", "^=", "/=", "%=") and r is not x:
                    ctx.fail("the in-place operator returned another object", None, label)
                f = model(f)
            ctx.transitions += 1
        U.check(ctx, "family after the calls", x, f)
    for k in P:
        U.check(ctx, "an operand (%s) was changed" % k, objs[k], P[k])


def units(tier):
    th = tier == "thorough"
    us = []
    for c in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        for st in ("half", "sparse", "spaced", "layers", "product", "few"):
            us.append(Unit("bits/%s/%s" % (c, st), u_bits, (c, 13 if th else 11, st, 2, 0), seq=True, timeout=3000))
        us.append(Unit("bits/%s/far" % c, u_bits, (c, 9, "half", 3 if th else 2, 290), seq=True, timeout=3000))
    for c in CLS:
        full = th or c == "setset"
        parts = 8 if full else 3
        for p in range(parts):
            us.append(Unit("trans/%s/%d" % (c, p), u_trans, (c, 3, p, parts, full), seq=(p % 2 == 0)))
        if c != "setset-mixed" and c != "VertexSetSet-str":
            for first in range(20):
                us.append(Unit("hist/%s/%d" % (c, first), u_hist, (c, 5 if th else 4, (1, 3, 5), first), seq=True))
            for first in range(16):
                us.append(Unit("heap/%s/%d" % (c, first), u_heap, (c, 4, first), seq=True))
        if c != "EdgeVertexSetSet" and c != "setset-mixed":
            us.append(Unit("big/%s" % c, u_big, (c,)))
    return us
