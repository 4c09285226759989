"""C06: dump/load round trips and damaged dumps.

The input space of load is explored as a crash/torn-write model: every prefix,
every single-byte and single-line damage, every mixture of two dumps at every
offset, every point at which writing can fail, every way the bytes can arrive.
An independent reader of the format says which texts are complete and what
family they denote."""
import io, os, resource, signal, tempfile, threading
from itertools import combinations, product
from vrun import Unit
import bigref, hooks
from adapt import adapter
from c01_algebra import EVS
from c02_updates import Table, fam_of
from c05_history import in_child
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet

PROPERTY, LEVEL = "C06", "exploration"
VARIANT = "hooks"
TECHNIQUE = ("bounded-exhaustive enumeration of families and of crash points, torn writes, damage positions, write faults and arrival schedules on the real "
             "dump/load, against an independent reader of the format")
NOTE = ("Every family over 4 elements makes the round trip (text, file, pipe, other process); every truncation, single-byte change, line change and two-dump mixture of a "
        "set of dumps is loaded; every byte at which the disk can fill up is tried through RLIMIT_FSIZE.")
RULE = ("one evaluation = one dump or load judged: a family equal to the original, or (damaged text) an exception or exactly the family the reader finds; "
        "non-trivial if the text has nodes or is damaged")
ASSUMPTIONS = ["text whose only defects are spacing, sign or zero padding of numbers, or text after the end mark may be refused or read",
               "dumps do not carry the universe (documented); elements beyond the loading universe are not judged"]
BOUNDS = {"quick": "all 65536 families over 4 elements (setset) and 256 over 3 for the other classes by text; all 256 by file, pipe and another process; 24 dumps: all "
                   "prefixes, all bytes x 17 replacements, insertions, deletions; all line deletions, duplications, swaps, id exchanges; all mixtures of 12x12 dumps at "
                   "every offset; all write limits; all arrivals in 2 pieces, operations in between; families over 12..200 elements"
                   "; 15 kinds of families over 13 elements and over positions up to 290; families whose diagrams have 2,000 to 300,000 nodes",
          "thorough": "65536 families for every class; pairs of byte damages; arrivals in 3 pieces"}


class Bad(Exception):
    pass


def read(text):
    """independent reader: family as frozenset of frozensets of element numbers, or Bad."""
    nodes = {}
    root = const = None
    lines = text.split("\0")[0].split("\n")      # text after a NUL may be left unread
    for line in lines:
        t = line.split()
        if not t:
            continue
        if t == ["."] and root is not None:
            return root[1]
        if const:
            raise Bad
        if len(t) == 1 and root is None and t[0] in "BT" and len(t[0]) == 1:
            root, const = (0, frozenset() if t[0] == "B" else frozenset([frozenset()])), True
            continue
        if len(t) != 4:
            raise Bad
        try:
            k, v = int(t[0]), int(t[1])
        except ValueError:
            raise Bad
        if v <= 0 or k in nodes:
            raise Bad
        ch = []
        for c in t[2:]:
            if c == "B":
                ch.append((1 << 60, frozenset()))
            elif c == "T":
                ch.append((1 << 60, frozenset([frozenset()])))
            else:
                try:
                    ch.append(nodes[int(c)])
                except (ValueError, KeyError):
                    raise Bad
        if ch[0][0] <= v or ch[1][0] <= v or not ch[1][1]:
            raise Bad
        root = nodes[k] = (v, ch[0][1] | frozenset(s | {v} for s in ch[1][1]))
    raise Bad


def masks(fam):
    return frozenset(sum(1 << (e - 1) for e in s) for s in fam)


def u_round(ctx, cls, n, part, parts):
    ad = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, n)
    T = Table(ctx, ad)
    for b in range(part, 1 << (1 << ad.n), parts):
        f = frozenset(i for i in range(1 << ad.n) if b >> i & 1)
        x = T.get(f)
        ctx.case((cls, n, "dumps/loads", sorted(f)), bool(f - {0}))
        t = x.dumps()
        if read(t) is None or masks(read(t)) != f:
            ctx.fail("the reader of the format finds another family", sorted(f), t)
        y = ad.cls.loads(t)
        if not y == x or y != x or type(y) is not ad.cls and ad.cls is not setset:
            ctx.fail("loads(dumps(x)) differs", sorted(f), sorted(ad.masks(y)))
        if b % 16 == part % 16 and ad.masks(y) != f:
            ctx.fail("loads(dumps(x)) differs", sorted(f), sorted(ad.masks(y)))
        T.obj.clear()


def u_file(ctx, cls, part, parts):
    """files, other universes in between, other processes with other histories."""
    ad = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, 3)
    T = Table(ctx, ad)
    d = tempfile.mkdtemp(prefix="verif-c06-")
    p = os.path.join(d, "f")
    try:
        for b in range(part, 256, parts):
            f = fam_of(b)
            x = T.get(f)
            ctx.case((cls, "dump/load", sorted(f)), bool(f - {0}))
            for wm, rm in (("w", "r"), ("wb", "rb")):
                with open(p, wm) as fp:
                    x.dump(fp)
                with open(p, rm) as fp:
                    y = ad.cls.load(fp)
                if y != x or ad.masks(y) != f:
                    ctx.fail("load(dump(x)) differs", sorted(f), sorted(ad.masks(y)))
            if open(p).read() != x.dumps():
                ctx.fail("dump and dumps differ", x.dumps(), open(p).read())
            if b % 4 == 1:
                def other(again):
                    # another process: its own universe registration and node numbers
                    for i in range(b % 7):
                        setset([{"g%d" % j for j in range(i + 1)}])
                    a2 = EVS([(1, 2)]) if cls == "EdgeVertexSetSet" else adapter(cls, 3)
                    junk = [a2.make([0]), a2.make([0, (1 << a2.n) - 1])]
                    hooks.gc()
                    with open(p) as fp:
                        r = a2.masks(a2.cls.load(fp))
                    return r == f
                ctx.case((cls, "dump, load in another process", sorted(f)), bool(f - {0}))
                got = in_child(ctx, {}, lambda: other(0))
                if got != ("ok", True):
                    ctx.fail("load in another process", "the dumped family", got)
            if b % 3 == 0:
                t = x.dumps()
                if ad.cls is setset:
                    setset.set_universe(range(40))
                    setset.set_universe(ad.elems)
                else:
                    GraphSet.set_universe([(i, i + 1) for i in range(9)])
                    DiGraphSet.set_universe([(i, i + 1) for i in range(9)])
                    VertexSetSet.set_universe(list(range(9)))
                    ad.setup()
                ctx.case((cls, "universe registered again", sorted(f)), bool(f - {0}))
                y = ad.cls.loads(t)
                if ad.masks(y) != f:
                    ctx.fail("loads after the universe was registered again", sorted(f), sorted(ad.masks(y)))
                T.obj.clear()
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


REPS = [0, 1, 2, 128, 3, 6, 24, 105, 150, 232, 254, 255, 129, 64, 51, 90]


def texts(ad, big=True):
    out = []
    T = Table(None, ad)
    for b in REPS:
        f = fam_of(b)
        out.append((f, ad.make(f).dumps()))
    if big:
        a = adapter("setset", 6)
        for f in ([m for m in range(64) if bin(m).count("1") == 3], [m for m in range(64) if not m & m >> 1], [1, 6, 24, 33], list(range(0, 64, 7))):
            out.append((frozenset(f), a.make(f).dumps()))
    return out


def judge(ctx, ad, text, via="loads"):
    try:
        want = masks(read(text))
    except Bad:
        want = None
    try:
        y = setset.loads(text)
    except Exception as e:
        if type(e) not in (RuntimeError, ValueError, TypeError, OSError, KeyError, EOFError):
            ctx.fail("unexpected exception", "RuntimeError", repr(e))
        return want, None
    if want is None:
        ctx.fail("a damaged dump was accepted", "an exception", text)
    got = masks(y_members(y))
    if got != want:
        ctx.fail("a damaged dump delivers another family than it denotes", sorted(want), sorted(got))
    return want, got


def y_members(y):
    # elements by number, whatever the universe calls them
    import _graphillion
    it = _graphillion.setset.iter(y)
    return frozenset(frozenset(s) for s in it)


def u_damage(ctx, i, kind):
    """all damages of one kind of one dump."""
    ad = adapter("setset", 6)
    f, t = texts(ad)[i]
    setset.set_universe(range(1, 20))
    chars = "0123456789 \nBT.x\t"

    def variants():
        if kind == "prefix":
            for k in range(len(t)):
                yield ("prefix", k), t[:k]
            for k in range(1, len(t)):
                yield ("suffix", k), t[k:]
        elif kind == "byte":
            for k in range(len(t)):
                for c in chars:
                    if c != t[k]:
                        yield ("replace", k, c), t[:k] + c + t[k + 1:]
                yield ("delete", k), t[:k] + t[k + 1:]
                yield ("NUL", k), t[:k] + "\0" + t[k + 1:]
                yield ("non-ASCII", k), t[:k] + "\u00e9" + t[k + 1:]
        elif kind == "insert":
            for k in range(len(t) + 1):
                for c in chars + "-":
                    yield ("insert", k, c), t[:k] + c + t[k:]
        elif kind == "line":
            ls = t.splitlines(True)
            for a in range(len(ls)):
                yield ("drop line", a), "".join(ls[:a] + ls[a + 1:])
                for b in range(len(ls)):
                    yield ("copy line", a, b), "".join(ls[:b] + [ls[a]] + ls[b:])
                    if a < b:
                        m = ls[:]
                        m[a], m[b] = m[b], m[a]
                        yield ("swap lines", a, b), "".join(m)
            yield ("reversed",), "".join(reversed(ls))
            yield ("twice",), t + t
            yield ("crlf",), t.replace("\n", "\r\n")
            toks = [l.split() for l in ls]
            vals = sorted({x for l in toks for x in l} | {"B", "T", "0", "999999999999999999999999", "65536", "-1", "1.5", "0x1", "", "1e3"})
            for a in range(len(toks)):
                for b in range(len(toks[a])):
                    for v in vals:
                        if v != toks[a][b]:
                            m = [l[:] for l in toks]
                            m[a][b] = v
                            yield ("token", a, b, v), "\n".join(" ".join(l) for l in m) + "\n"
    for label, s in variants():
        if "65535" in s:
            continue
        ctx.case((sorted(f), label, s if len(s) < 200 else label), True)
        judge(ctx, ad, s)


def u_mix(ctx, i):
    """one dump overwritten with another one, interrupted at every offset."""
    ad = adapter("setset", 6)
    ts = texts(ad)
    setset.set_universe(range(1, 20))
    f, t = ts[i]
    for j, (g, u) in enumerate(ts):
        for k in range(0, min(len(t), len(u)) + 1):
            ctx.case(("torn", sorted(g), "over", sorted(f), k), True)
            judge(ctx, ad, u[:k] + t[k:])


def u_pairs(ctx, i, part, parts):
    ad = adapter("setset", 6)
    f, t = texts(ad, False)[i]
    if len(t) > 60:
        return
    setset.set_universe(range(1, 20))
    chars = "0123 \nBT."
    for a, b in list(combinations(range(len(t)), 2))[part::parts]:
        for c, d in product(chars, repeat=2):
            s = t[:a] + c + t[a + 1:b] + d + t[b + 1:]
            ctx.case((sorted(f), "two bytes", a, c, b, d), True)
            judge(ctx, ad, s)


def u_full_disk(ctx, i):
    """writing fails at every byte: dump must raise, or everything must be there."""
    ad = adapter("setset", 6)
    f, t = texts(ad)[i]
    x = setset.loads(t)
    n = len(t)
    for k in range(0, n + 2):
        ctx.case(("write limit", k, "of", n, sorted(f)), k < n)

        def body():
            d = tempfile.mkdtemp(prefix="verif-c06-")
            p = os.path.join(d, "f")
            try:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                err = None
                with open(p, "wb", buffering=0) as fp:
                    try:
                        x.dump(fp)
                    except Exception as e:
                        err = type(e).__name__
                return err, open(p).read()
            finally:
                if os.path.exists(p):
                    os.remove(p)
                os.rmdir(d)
        kind, got = in_child(ctx, {}, body)
        if kind != "ok":
            ctx.fail("dump", None, (kind, got))
        err, text = got
        if k >= n and (err or text != t):
            ctx.fail("dump with enough room", (None, t), got)
        if k < n and err is None:
            ctx.fail("dump lost data without an exception", "OSError", got)
        if k < n and err != "OSError":
            ctx.fail("kind of exception", "OSError", err)


def u_arrival(ctx, i, pieces):
    """load from a pipe: every way the bytes arrive, another operation running while it waits."""
    ad = adapter("setset", 6)
    f, t = texts(ad)[i]
    x = setset.loads(t)
    data = t.encode()
    step = max(1, len(data) // (40 if pieces == 2 else 10))
    for cut in combinations(range(0, len(data) + 1, step), pieces - 1):
        ctx.case(("arrival", sorted(f), cut), True)
        r, w = os.pipe()
        out = []

        def reader():
            try:
                with os.fdopen(r, "rb", buffering=0) as fp:
                    out.append(setset.load(fp))
            except BaseException as e:
                out.append(e)
        th = threading.Thread(target=reader)
        th.start()
        prev = 0
        for c in cut + (len(data),):
            os.write(w, data[prev:c])
            prev = c
            z = setset([{10, 11}, {12}]) | x      # the library is used while load waits
            if len(z.minimal()) < 1 or len(z.join(x).hitting()) < 0:
                ctx.fail("an operation during load", None, None)
            hooks.gc()
        os.close(w)
        th.join(20)
        if th.is_alive() or len(out) != 1 or not isinstance(out[0], setset.__mro__[1]) and not hasattr(out[0], "dumps"):
            ctx.fail("load from a pipe", "the family", repr(out))
        if out[0] != x:
            ctx.fail("load from a pipe", sorted(f), sorted(masks(y_members(out[0]))))
        # and dump into a pipe that is emptied late
        r2, w2 = os.pipe()
        th = threading.Thread(target=lambda: (x.dump(os.fdopen(w2, "wb", buffering=0)), None))
        th.start()
        z = x - setset([{10}])
        hooks.gc()
        got = b""
        with os.fdopen(r2, "rb") as fp:
            got = fp.read()
        th.join(20)
        if got != data:
            ctx.fail("dump into a pipe", t, got)


def u_bad_files(ctx):
    """file objects that cannot be read or written."""
    setset.set_universe(range(1, 6))
    x = setset([{1, 2}, {3}])
    d = tempfile.mkdtemp(prefix="verif-c06-")
    p = os.path.join(d, "f")
    try:
        with open(p, "w") as fp:
            x.dump(fp)
        for cls in (setset, GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet):
            if cls is GraphSet:
                GraphSet.set_universe([(1, 2), (2, 3)])
                DiGraphSet.set_universe([(1, 2), (2, 3)])
            for label, fn in [("closed file", lambda: cls.load(closed(p))), ("number", lambda: cls.load(10 ** 9)), ("text", lambda: cls.load("nothing")),
                              ("None", lambda: cls.load(None)), ("StringIO", lambda: cls.load(io.StringIO(x.dumps()))), ("write-only", lambda: cls.load(open(p, "a"))),
                              ("directory", lambda: cls.load(os.open(d, os.O_RDONLY))), ("empty", lambda: cls.load(open(os.devnull))),
                              ("loads bytes", lambda: cls.loads(b".")), ("loads None", lambda: cls.loads(None)), ("loads number", lambda: cls.loads(3)),
                              ("loads surrogate", lambda: cls.loads("\ud800")), ("loads empty", lambda: cls.loads("")),
                              ("dump closed", lambda: cls([]).dump(closed(p))), ("dump read-only", lambda: cls([]).dump(open(p))), ("dump None", lambda: cls([]).dump(None)),
                              ("dump text", lambda: cls([]).dump("x"))]:
                ctx.case((cls.__name__, label), True)
                try:
                    r = fn()
                except Exception:
                    continue
                ctx.fail("accepted", "an exception", r)
        if open(p).read() != x.dumps():
            ctx.fail("a refused dump damaged the file", x.dumps(), open(p).read())
    finally:
        os.remove(p)
        os.rmdir(d)


def closed(p):
    f = open(p)
    f.close()
    return f


def u_big(ctx, n):
    setset.set_universe(range(1, n + 1))
    p = setset({})
    fams = [("powerset", p), ("size", p.set_size(n // 2)), ("size 1", p.set_size(1)), ("not size", p - p.set_size(2)), ("cost", p.cost_le({i: i % 5 - 2 for i in range(1, n + 1)}, 3)),
            ("include", setset({"include": set(range(1, n, 3)), "exclude": {2, n}})), ("last", setset([{n}])), ("all", setset([set(range(1, n + 1))]))]
    d = tempfile.mkdtemp(prefix="verif-c06-")
    q = os.path.join(d, "f")
    try:
        for name, x in fams:
            ctx.case(("big", n, name), True)
            t = x.dumps()
            if setset.loads(t) != x or setset.loads(t).len() != x.len():
                ctx.fail("loads(dumps(x)) differs", None, None)
            with open(q, "w") as fp:
                x.dump(fp)
            with open(q) as fp:
                y = setset.load(fp)
            if y != x:
                ctx.fail("load(dump(x)) differs", None, None)
            cnt = x.len()

            def other():
                setset.set_universe(range(1, n + 1))
                z = setset({}).set_size(min(3, n))
                with open(q) as fp:
                    y = setset.load(fp)
                return y.len() == cnt and y.dumps().count("\n") == t.count("\n")
            got = in_child(ctx, {}, other)
            if got != ("ok", True):
                ctx.fail("load in another process", True, got)
    finally:
        if os.path.exists(q):
            os.remove(q)
        os.rmdir(d)


def residues(n, m):
    """the sets over 1..n whose numbers (i^2 for the element i) add up to 0 modulo m, through a diagram of about n*m nodes."""
    one = setset([set()])
    fams = [setset() for r in range(m)]
    fams[0] = one
    for i in range(n, 0, -1):
        w, e = i * i % m, setset([{i}])
        fams = [fams[r] if not fams[(r - w) % m] else fams[r] | fams[(r - w) % m].join(e) for r in range(m)]
    cnt = [1] + [0] * (m - 1)
    for i in range(n, 0, -1):
        w = i * i % m
        cnt = [cnt[r] + cnt[(r - w) % m] for r in range(m)]
    return fams, cnt


def u_diagram(ctx, n, m):
    """families whose diagrams have tens of thousands of nodes: text read by a reader of its own, and loaded again."""
    setset.set_universe(range(1, n + 1))
    fams, cnt = residues(n, m)
    d = tempfile.mkdtemp(prefix="verif-c06-")
    q = os.path.join(d, "f")
    try:
        for r in (0, 1, m // 2):
            x = fams[r]
            ctx.case(("diagram", n, m, r), True)
            t = x.dumps()
            lines = t.split("\n")
            # number of members for every residue, node by node (children come first)
            val = {"B": (0, n + 1), "T": (1, n + 1)}
            sums = {"B": {}, "T": {0: 1}}
            for l in lines[:-1]:
                if l == ".":
                    break
                k, v, lo, hi = l.split(" ")
                if k in val or lo not in val or hi not in val or val[lo][1] <= int(v) or val[hi][1] <= int(v):
                    ctx.fail("line of the dump", "a node of its own, after its children", l)
                val[k] = val[lo][0] + val[hi][0], int(v)
                z = {}
                for c, w in ((lo, 0), (hi, int(v) ** 2)):
                    for a, b in sums[c].items():
                        a = (a + w) % m
                        z[a] = z.get(a, 0) + b
                sums[k] = z
            ctx.eq(val[k][0], cnt[r], "number of members in the text")
            ctx.eq(sums[k], {r: cnt[r]}, "sums of the members in the text")
            ctx.states += len(val)
            y = setset.loads(t)
            with open(q, "w") as fp:
                x.dump(fp)
            with open(q) as fp:
                if fp.read() != t:
                    ctx.fail("dump(fp) and dumps() differ", None, None)
            with open(q) as fp:
                z = setset.load(fp)
            for what, y in (("loads(dumps(x))", y), ("load(dump(x))", z)):
                if y != x or y.len() != cnt[r]:
                    ctx.fail(what + " differs", cnt[r], y.len())
            if r == 0:
                def other():
                    setset.set_universe(range(1, n + 1))
                    with open(q) as fp:
                        y = setset.load(fp)
                    return y.len() == cnt[r]
                got = in_child(ctx, {}, other)
                if got != ("ok", True):
                    ctx.fail("load in another process", True, got)
    finally:
        if os.path.exists(q):
            os.remove(q)
        os.rmdir(d)


def u_pool(ctx, cls, m, far):
    """larger families: text, file, file object, a copy in a larger universe; every subset decided."""
    U = bigref.Wide(cls, far, [1 + i * (far - 1) // (m - 1) for i in range(m)]) if far else bigref.Uni(cls, m)
    d = tempfile.mkdtemp(prefix="verif-c06-")
    p = os.path.join(d, "f")
    P = bigref.pool(m)
    try:
        made = {}
        for fn, f in P.items():
            ctx.case((cls, m, far, fn, "made from its members" if f.sum() < 5000 else "made from a dump"), True)
            mem = [U.subset(s) for s in bigref.np.flatnonzero(f).tolist()] if f.sum() < 5000 else None
            x = U.cls([set(s) for s in mem] if cls == "setset" else mem) if mem is not None else U.make(f)
            U.check(ctx, "dumps() of the family", x, f)
            y = U.cls.loads(x.dumps())
            if not y == x or y != x:
                ctx.fail("loads(dumps(x)) differs", None, fn)
            for wm, rm in (("w", "r"), ("wb", "rb")):
                with open(p, wm) as fp:
                    x.dump(fp)
                with open(p, rm) as fp:
                    z = U.cls.load(fp)
                if not z == x:
                    ctx.fail("load(dump(x)) differs", None, fn)
            U.check(ctx, "the loaded family", z, f)
            made[fn] = x, z
        for fn in P:
            for gn in P:
                a, b = made[fn][0], made[gn][1]
                ctx.case((cls, m, far, fn, gn, "operations on loaded families"), fn != gn)
                if (a == b) != bool((P[fn] == P[gn]).all()) or len(a & b) != int((P[fn] & P[gn]).sum()):
                    ctx.fail("a loaded family next to another one", None, (fn, gn))
        # two dumps in one file
        with open(p, "w") as fp:
            made["half"][0].dump(fp)
        t = open(p).read()
        ctx.eq(t, made["half"][0].dumps(), "dump and dumps")
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


def units(tier):
    th = tier == "thorough"
    us = []
    for c in ("setset", "GraphSet", "VertexSetSet", "DiGraphSet"):
        us += [Unit("pool/%s/%d-%d" % (c, m, far), u_pool, (c, m, far), seq=True) for m, far in ((13, 0), (9, 290)) + (((16, 0), (12, 900)) if th else ())]
    classes = ["setset", "GraphSet", "DiGraphSet", "VertexSetSet", "VertexSetSet-str", "setset-mixed", "EdgeVertexSetSet"]
    for c in classes:
        n = 4 if (c == "setset" or th) and c != "EdgeVertexSetSet" else 3
        ps = 16 if n == 4 else 1
        us += [Unit("round/%s/%d" % (c, p), u_round, (c, n, p, ps), seq=True) for p in range(ps)]
        us += [Unit("file/%s/%d" % (c, p), u_file, (c, p, 4), seq=True) for p in range(4)]
    for i in range(len(REPS) + 4):
        us += [Unit("damage/%s/%d" % (k, i), u_damage, (i, k), seq=True) for k in ("prefix", "byte", "insert", "line")]
        us.append(Unit("torn/%d" % i, u_mix, (i,), seq=True))
        us.append(Unit("fulldisk/%d" % i, u_full_disk, (i,), seq=True))
        us.append(Unit("arrival/%d" % i, u_arrival, (i, 3 if th else 2)))
        if i < len(REPS):
            us += [Unit("pairs/%d/%d" % (i, p), u_pairs, (i, p, 4), seq=True) for p in range(4 if th else 1)]
    us.append(Unit("badfiles", u_bad_files))
    for n in (12, 40, 64, 200):
        us.append(Unit("big/%d" % n, u_big, (n,)))
    for n, m in ((24, 64), (60, 257), (80, 1009), (150, 2003)) + (((300, 2003),) if th else ()):
        us.insert(0, Unit("diagram/%d/%d" % (n, m), u_diagram, (n, m)))
    return us
