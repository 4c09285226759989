"""C21: the graph classes of graphillion.graphclass."""
from itertools import combinations, permutations
from vrun import Unit
import bigref, gref
from graphillion import GraphSet
from graphillion.graphclass import GraphClass
from graphillion.universe import Universe

PROPERTY, LEVEL, VARIANT = "C21", "exploration", "ext"
TECHNIQUE = "bounded-exhaustive enumeration of universes against structural definitions of the graph classes"
NOTE = ("Each class constructor runs on every listed universe and order (serial and multi-threaded); its members are compared with a "
        "classification of every edge subset by the structural definition of the class (elimination orders, partitions, complements), which "
        "does not use forbidden-induced families (universes of 9..15 edges: bitmaps, excluded graphs found by their degree sequences).")
RULE = "one evaluation = one constructor call on one ordered universe, compared member by member; non-trivial if the expected family is neither empty nor everything"
ASSUMPTIONS = ["universes are simple graphs; a member's graph consists of its edges and their endpoints",
               "domino_graphs denotes the class {W4, claw, gem}-free graphs that its reference (gc_180) and code name"]
BOUNDS = {"quick": "all ordered edge lists over K4, all labelled graphs on 5 vertices in 1 order, 18 structured graphs incl. K5, prism, C7, C7 with "
                   "a chord, all 6-vertex graphs up to isomorphism with <= 10 edges, 4 traversals"
                   "; 11 graphs of 9..15 edges (K6, octahedron, complement of C7, Petersen graph, ...)",
          "thorough": "3 orders per 5-vertex graph, all 6-vertex graphs up to isomorphism with <= 13 edges, K6"}


# --- structural classification of one labelled graph (adjacency masks over its own vertices) ---

def comps(adj, vs):
    out = []
    left = vs
    while left:
        c = left & -left
        while True:
            n = c
            x = c
            while x:
                i = (x & -x).bit_length() - 1
                x &= x - 1
                n |= adj[i] & vs
            if n == c:
                break
            c = n
        out.append(c)
        left &= ~c
    return out


def bits(x):
    while x:
        yield (x & -x).bit_length() - 1
        x &= x - 1


def clique(adj, vs):
    return all(adj[i] & vs == vs & ~(1 << i) for i in bits(vs))


def is_chordal(adj, vs):
    while vs:
        for i in bits(vs):
            if clique(adj, adj[i] & vs):
                vs &= ~(1 << i)
                break
        else:
            return False
    return True


def is_cograph(adj, vs):
    if vs & (vs - 1) == 0:
        return True
    c = comps(adj, vs)
    if len(c) == 1:
        n = len(adj)
        co = [~adj[i] & ~(1 << i) & ((1 << n) - 1) for i in range(n)]
        c = comps(co, vs)
        if len(c) == 1:
            return False
        return all(is_cograph(adj, x) for x in c)
    return all(is_cograph(adj, x) for x in c)


def is_split(adj, vs):
    sub = vs
    while True:
        if clique(adj, sub) and all(adj[i] & (vs & ~sub) == 0 for i in bits(vs & ~sub)):
            return True
        if sub == 0:
            return False
        sub = (sub - 1) & vs


def is_threshold(adj, vs):
    while vs:
        for i in bits(vs):
            d = adj[i] & vs
            if d == 0 or d == vs & ~(1 << i):
                vs &= ~(1 << i)
                break
        else:
            return False
    return True


def is_bipartite(adj, vs):
    col = {}
    for c in comps(adj, vs):
        st = [next(bits(c))]
        col[st[0]] = 0
        while st:
            x = st.pop()
            for y in bits(adj[x] & vs):
                if y not in col:
                    col[y] = 1 - col[x]
                    st.append(y)
                elif col[y] == col[x]:
                    return False
    return True


def blocks_are_cliques(adj, vs):
    """block graph: any two vertices on a common cycle are adjacent <=> every 2-connected induced subgraph is complete"""
    sub = vs
    while sub:
        if bin(sub).count("1") >= 3 and len(comps(adj, sub)) == 1 and not clique(adj, sub) \
                and all(len(comps(adj, sub & ~(1 << i))) == 1 for i in bits(sub)):
            return False
        sub = (sub - 1) & vs
    return True


def dist(adj, vs, a):
    d = {a: 0}
    q = [a]
    for x in q:
        for y in bits(adj[x] & vs):
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def is_ptolemaic(adj, vs):
    """chordal and distance hereditary: every connected induced subgraph keeps distances"""
    if not is_chordal(adj, vs):
        return False
    full = {i: dist(adj, vs, i) for i in bits(vs)}
    sub = vs
    while sub:
        if len(comps(adj, sub)) == 1:
            for i in bits(sub):
                d = dist(adj, sub, i)
                if any(d[j] != full[i][j] for j in d):
                    return False
        sub = (sub - 1) & vs
    return True


def hole(adj, sub):
    """sub induces a chordless cycle"""
    return len(comps(adj, sub)) == 1 and all(bin(adj[i] & sub).count("1") == 2 for i in bits(sub))


def occurs(adj, vs, k, test):
    for c in combinations(list(bits(vs)), k):
        s = sum(1 << i for i in c)
        if test(adj, s):
            return True
    return False


def iso(adj, s, degs, ne):
    d = sorted(bin(adj[i] & s).count("1") for i in bits(s))
    return d == degs and sum(d) == 2 * ne


def star3(adj, s):
    return any(adj[i] & s == s & ~(1 << i) and all(adj[j] & s == 1 << i for j in bits(s & ~(1 << i))) for i in bits(s))


def diamond(adj, s):
    v = list(bits(s))
    return sum(1 for a, b in combinations(v, 2) if adj[a] >> b & 1) == 5


def p4(adj, s):
    for a, b, c, d in permutations(list(bits(s))):
        if adj[a] & s == 1 << b and adj[b] & s == (1 << a | 1 << c) and adj[c] & s == (1 << b | 1 << d) and adj[d] & s == 1 << c:
            return True
    return False


def gem(adj, s):
    return any(adj[i] & s == s & ~(1 << i) and p4(adj, s & ~(1 << i)) for i in bits(s))


def w4(adj, s):
    return any(adj[i] & s == s & ~(1 << i) and hole(adj, s & ~(1 << i)) for i in bits(s))


CLASSES = ["claw_graphs", "claw_free_graphs", "diamond_graphs", "diamond_free_graphs", "gem_graphs", "gem_free_graphs", "odd_hole_graphs",
           "odd_hole_free_graphs", "chordal_graphs", "cographs", "chordal_bipartite_graphs", "split_graphs", "block_graphs", "ptolemaic_graphs",
           "threshold_graphs", "gridline_graphs", "domino_graphs", "linear_domino_graphs"]
_memo = {}


def classify(adj):
    """set of class indices; adj: tuple of masks, vertices = those with an edge."""
    key = tuple(sorted(adj)) if False else adj
    r = _memo.get(key)
    if r is not None:
        return r
    n = len(adj)
    vs = sum(1 << i for i in range(n) if adj[i])
    nv = bin(vs).count("1")
    m = sum(bin(a).count("1") for a in adj) // 2
    claw = nv == 4 and m == 3 and star3(adj, vs)
    dia = nv == 4 and m == 5
    gm = nv == 5 and m == 7 and gem(adj, vs)
    oh = nv >= 5 and nv % 2 == 1 and m == nv and hole(adj, vs)
    hasclaw = occurs(adj, vs, 4, star3)
    hasdia = occurs(adj, vs, 4, diamond)
    hasgem = occurs(adj, vs, 5, gem)
    hasoh = any(occurs(adj, vs, k, hole) for k in range(5, nv + 1, 2))
    bip = is_bipartite(adj, vs)
    v = [claw, not hasclaw, dia, not hasdia, gm, not hasgem, oh, not hasoh, is_chordal(adj, vs), is_cograph(adj, vs),
         bip and not any(occurs(adj, vs, k, hole) for k in range(6, nv + 1)), is_split(adj, vs), blocks_are_cliques(adj, vs),
         is_ptolemaic(adj, vs), is_threshold(adj, vs), not (hasclaw or hasdia or hasoh),
         not (occurs(adj, vs, 5, w4) or hasclaw or hasgem), not (hasclaw or hasdia)]
    r = _memo[key] = v
    return r


def expected(g):
    ix = [(g.verts.index(a), g.verts.index(b)) for a, b in g.edges]
    out = [set() for _ in CLASSES]
    for s in range(g.N):
        adj = [0] * g.n
        for i, (a, b) in enumerate(ix):
            if s >> i & 1:
                adj[a] |= 1 << b
                adj[b] |= 1 << a
        # canonical up to dropping unused vertices (keeps the memo small)
        keep = [i for i in range(g.n) if adj[i]]
        pos = {v: i for i, v in enumerate(keep)}
        a2 = tuple(sum(1 << pos[j] for j in bits(adj[i])) for i in keep)
        for k, x in enumerate(classify(a2)):
            if x:
                out[k].add(s)
    return [frozenset(x) for x in out]


def go(ctx, U, exp):
    g = U.g
    before = (Universe.edge_universe(), Universe.vertex_universe(), Universe.edge_vertex_universe())
    for k, name in enumerate(CLASSES):
        ctx.case((U.edges, name), 0 < len(exp[k]) < g.N)
        gref.compare(ctx, U, "GraphClass." + name, getattr(GraphClass, name)(), exp[k])
    if before != (Universe.edge_universe(), Universe.vertex_universe(), Universe.edge_vertex_universe()):
        ctx.fail("the universe was changed by a class constructor", before)


def u_labelled(ctx, n, part, parts, norders):
    for k, e in enumerate(gref.labelled_graphs(n)):
        if k % parts == part:
            exp = expected(gref.ug(e))
            os = gref.orders(e)
            for o in ([os[(k // parts) % len(os)]] if norders == 1 else os[:norders]):
                go(ctx, gref.Univ(o), exp)


def u_lists(ctx, n, part, parts):
    for k, e in enumerate(gref.ordered_lists(n)):
        if k % parts == part:
            U = gref.Univ(e)
            go(ctx, U, expected(U.g))


def u_atlas(ctx, n, part, parts, hi, connected):
    for k, e in enumerate(gref.atlas(n, hi=hi, connected=connected)):
        if k % parts == part:
            os = gref.orders(e)
            go(ctx, gref.Univ(os[k % len(os)]), expected(gref.ug(e)))


STRUCT = dict(gref.structured())
STRUCT["C7"] = gref.cycle(7)
STRUCT["C7chord"] = sorted(gref.cycle(7) + [(2, 5)])
STRUCT["C6chords"] = sorted(gref.cycle(6) + [(1, 4), (2, 6)])
STRUCT["octa-"] = [e for e in gref.all_edges(6) if e not in ((1, 2), (3, 4), (5, 6), (2, 6))]
STRUCT["prism"] = [(1, 2), (2, 3), (1, 3), (4, 5), (5, 6), (4, 6), (1, 4), (2, 5), (3, 6)]


def u_struct(ctx, name, o):
    E = STRUCT[name]
    os = gref.orders(E)
    exp = expected(gref.ug(E))
    go(ctx, gref.Univ(os[o % len(os)]), exp)
    go(ctx, gref.Univ(os[(o + 1) % len(os)], ("greedy", "bfs", "dfs")[o % 3]), exp)


def u_k6(ctx):
    E = gref.all_edges(6)
    go(ctx, gref.Univ(E), expected(gref.ug(E)))


def big_expected(B):
    """the classes as bitmaps; occurrences of the excluded graphs found by their degree sequences"""
    np = bigref.np
    deg = np.sort(np.stack(B.deg), axis=0)[::-1]

    def seq(*d):
        r = B.all.copy()
        for i in range(B.n):
            r &= deg[i] == (d[i] if i < len(d) else 0)
        return np.flatnonzero(r & (B.nec == (2 if d == (1, 1, 1, 1) else 1))).tolist()
    cyc = B.is_cycle()
    claw, dia, gem_, w4_ = seq(3, 1, 1, 1), seq(3, 3, 2, 2), seq(4, 3, 3, 2, 2), seq(4, 3, 3, 3, 3)
    p4_, kk, c4 = seq(2, 2, 1, 1), seq(1, 1, 1, 1), np.flatnonzero(cyc & (B.size == 4)).tolist()
    c5 = np.flatnonzero(cyc & (B.size == 5)).tolist()
    oh = cyc & (B.size >= 5) & (B.size % 2 == 1)
    F = B.forbidden_free
    nc, nd, ng, noh, ch = F(claw), F(dia), F(gem_), F(np.flatnonzero(oh).tolist()), B.chordal()
    noc4 = F(c4)
    no2 = F(kk)
    nop4 = F(p4_)
    six = F(np.flatnonzero(cyc & (B.size >= 6)).tolist())
    return [B.of(claw), nc, B.of(dia), nd, B.of(gem_), ng, oh, noh, ch, nop4, B.bip & six, no2 & noc4 & F(c5), ch & nd, ch & ng, no2 & noc4 & nop4,
            nc & nd & noh, F(w4_) & nc & ng, nc & nd]


LARGE = {"K6": gref.all_edges(6), "octahedron": [e for e in gref.all_edges(6) if e not in ((1, 2), (3, 4), (5, 6))], "W6": gref.wheel(6), "petersen": bigref.PETERSEN,
         "C9": gref.cycle(9), "chords": bigref.graphs()["chords"], "coC7": [e for e in gref.all_edges(7) if e[1] - e[0] not in (1, 6)], "C7+hub": gref.wheel(7),
         "grid33": gref.grid(3, 3), "K34": gref.kab(3, 4), "gems": [(1, v) for v in range(2, 8)] + [(v, v + 1) for v in range(2, 7)] + [(2, 4), (7, 8), (8, 1)]}


def u_big(ctx, name, o):
    E = bigref.orders(LARGE[name], 4)[o]
    B = bigref.ds(E)
    for nm, exp in zip(CLASSES, big_expected(B)):
        ctx.case((name, o, nm), bool(exp.any()) and not exp.all())
        bigref.compare(ctx, B, "GraphClass." + nm, getattr(GraphClass, nm)(), exp)


def units(tier):
    q = tier == "quick"
    u = []
    for name in LARGE:
        for o in range(1 if q else 4):
            u.append(Unit("big-%s-%d" % (name, o), u_big, (name, o), seq=o % 2 == 1, timeout=3000))
    for name in sorted(STRUCT, key=lambda x: -len(STRUCT[x])):
        for o in range(1 if len(STRUCT[name]) > 11 else 3):
            u.append(Unit("struct-%s-%d" % (name, o), u_struct, (name, o), seq=o % 2 == 1))
    for p in range(32):
        u.append(Unit("labelled5-%d" % p, u_labelled, (5, p, 32, 1 if q else 3), seq=p % 2 == 1))
    for p in range(16):
        u.append(Unit("lists4-%d" % p, u_lists, (4, p, 16), seq=p % 2 == 1))
    for p in range(32):
        u.append(Unit("atlas6-%d" % p, u_atlas, (6, p, 32, 10 if q else 13, None), seq=p % 2 == 1))
    if not q:
        u.append(Unit("K6", u_k6, ()))
    return u
