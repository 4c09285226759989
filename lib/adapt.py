"""Uniform view (families of bit masks) of the public set-of-sets classes."""
from graphillion import setset, GraphSet, DiGraphSet, VertexSetSet
from graphillion.edgevertex_setset import EdgeVertexSetSet


def silence():
    GraphSet.show_messages(False)


class Adapter:
    """make/masks translate; everything else goes through the public API only."""
    name = None
    has = set()

    def __init__(self, elems):
        self.elems = list(elems)
        self.n = len(self.elems)
        self.idx = {self.key(e): i for i, e in enumerate(self.elems)}
        self.setup()

    def key(self, e):
        return e

    def setup(self):
        self.cls.set_universe(self.elems)

    def members(self, mask):
        return [self.elems[i] for i in range(self.n) if mask >> i & 1]

    def setarg(self, mask):
        return self.members(mask)

    def make(self, fam):
        return self.cls([self.members(m) for m in sorted(fam)])

    def mask(self, member):
        m = 0
        for e in member:
            b = 1 << self.idx[self.key(e)]
            assert not m & b, "element repeated in %r" % (member,)
            m |= b
        return m

    def masks(self, obj):
        l = [self.mask(s) for s in obj]
        r = frozenset(l)
        if len(r) != len(l):
            raise AssertionError("iteration yields a member twice: %r" % (l,))
        return r


class SS(Adapter):
    name, cls = "setset", setset
    m = dict(subsets="subsets", supersets="supersets", non_subsets="non_subsets",
             non_supersets="non_supersets", size="set_size", hitting="hitting",
             remove_some="remove_some_element", add_some="add_some_element",
             remove_add="remove_add_some_elements")

    def setarg(self, mask):
        return set(self.members(mask))


class GS(Adapter):
    name, cls = "GraphSet", GraphSet
    m = dict(subsets="subgraphs", supersets="supergraphs", non_subsets="non_subgraphs",
             non_supersets="non_supergraphs", size="graph_size", hitting="hitting",
             remove_some="remove_some_edge", add_some="add_some_edge",
             remove_add="remove_add_some_edges")

    def key(self, e):
        return e

    def setup(self):
        self.cls.set_universe(self.elems, traversal="as-is")


class DS(GS):
    name, cls = "DiGraphSet", DiGraphSet


class VS(GS):
    name, cls = "VertexSetSet", VertexSetSet
    m = dict(GS.m, remove_some="remove_some_vertex", add_some="add_some_vertex",
             remove_add="remove_add_some_vertices")

    def setup(self):
        self.cls.set_universe(self.elems)


GEDGES = {1: [(1, 2)], 2: [(1, 2), (2, 3)], 3: [(1, 2), (1, 3), (2, 3)],
          4: [(1, 2), (1, 3), (2, 3), (3, 4)],
          5: [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)],
          6: [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)]}
DEDGES = {1: [(1, 2)], 2: [(1, 2), (2, 1)], 3: [(1, 2), (2, 1), (2, 3)],
          4: [(1, 2), (2, 1), (2, 3), (3, 1)],
          5: [(1, 2), (2, 1), (2, 3), (3, 1), (1, 3)]}


def adapter(name, n):
    if name == "setset":
        return SS([10 + i for i in range(n)])
    if name == "setset-mixed":
        base = ["a", 7, (1, 2), frozenset([3]), "b", 2.5, ("x",), -1]
        return SS(base[:n])
    if name == "GraphSet":
        return GS(GEDGES[n] if n in GEDGES else [(i, i + 1) for i in range(1, n + 1)])
    if name == "DiGraphSet":
        return DS(DEDGES[n] if n in DEDGES else [(i, i + 1) for i in range(1, n + 1)])
    if name == "VertexSetSet":
        return VS(list(range(1, n + 1)))
    if name == "VertexSetSet-str":
        return VS(["v%d" % i for i in range(n)])
    raise KeyError(name)
