"""Reference model of set families: a family is a frozenset of bit masks over n elements."""
from itertools import combinations


def popc(x):
    return bin(x).count("1")


def allsets(n):
    return frozenset(range(1 << n))


def union(f, g): return f | g
def inter(f, g): return f & g
def diff(f, g): return f - g
def symd(f, g): return f ^ g
def compl(f, n): return allsets(n) - f


def quotient(f, g, n):
    # {a | forall b in g: a|b in f and a&b = 0}
    it = iter(g)
    try:
        b0 = next(it)
    except StopIteration:
        return allsets(n)
    cand = {x & ~b0 for x in f if x & b0 == b0}
    return frozenset(a for a in cand if all(a & b == 0 and (a | b) in f for b in g))


def join(f, g): return frozenset(a | b for a in f for b in g)
def meet(f, g): return frozenset(a & b for a in f for b in g)
def remainder(f, g, n): return f - join(g, quotient(f, g, n))


def subsets(f, g): return frozenset(a for a in f if any(a & b == a for b in g))
def supersets(f, g): return frozenset(a for a in f if any(a & b == b for b in g))
def non_subsets(f, g): return f - subsets(f, g)
def non_supersets(f, g): return f - supersets(f, g)
def minimal(f): return frozenset(a for a in f if not any(b != a and a & b == b for b in f))
def maximal(f): return frozenset(a for a in f if not any(b != a and a & b == a for b in f))
def hitting(f, n): return frozenset(a for a in range(1 << n) if all(a & b for b in f))
def smaller(f, k): return frozenset(a for a in f if popc(a) < k)
def larger(f, k): return frozenset(a for a in f if popc(a) > k)
def size(f, k): return frozenset(a for a in f if popc(a) == k)
def flip(f, i): return frozenset(a ^ (1 << i) for a in f)
def flip_all(f, n): return frozenset(a ^ ((1 << n) - 1) for a in f)
def graft(f, i): return frozenset(a | (1 << i) for a in f)
def prune(f, i): return frozenset(a & ~(1 << i) for a in f)
def with_elem(f, i): return frozenset(a for a in f if a >> i & 1)
def without_elem(f, i): return frozenset(a for a in f if not a >> i & 1)


def remove_some(f, n):
    return frozenset(a & ~(1 << i) for a in f for i in range(n) if a >> i & 1)


def add_some(f, n):
    return frozenset(a | (1 << i) for a in f for i in range(n) if not a >> i & 1)


def remove_add(f, n):
    return frozenset(a & ~(1 << i) | (1 << j) for a in f for i in range(n) if a >> i & 1
                     for j in range(n) if not a >> j & 1)


def cost(mask, costs):
    return sum(c for i, c in enumerate(costs) if mask >> i & 1)


def families(n, kmax=None):
    """All families over n elements (optionally with at most kmax members), small first."""
    sets = range(1 << n)
    if kmax is None and n <= 4:
        for code in range(1 << (1 << n)):
            yield frozenset(s for s in sets if code >> s & 1)
        return
    for k in range((kmax if kmax is not None else len(sets)) + 1):
        for c in combinations(sets, k):
            yield frozenset(c)
