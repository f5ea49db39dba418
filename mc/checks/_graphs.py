"""Batches of graphs as cases, shared by the graph checks.

["all", n, a, b]        labelled graphs number a..b-1 on n vertices
["cls", n, a, b, k]     isomorphism classes a..b-1 on n vertices, each in k numberings
["circ", n, a, b]       circulant graphs on n vertices, by connection set
["sum", n, a, b, k]     disjoint unions a..b-1 of connected graphs on at most 4 vertices, n in
                        all, in k numberings; "cosum" for their complements
["fam", name, n]        a member of a family of larger graphs
["one", adj]            one graph (neighbour bitmasks); used in replay files
"""
from functools import lru_cache

import numpy as np

import ref

# how a graph is written down: (entries, diagonal, memory)
VARIANTS = [(int, 1, ""), (bool, 1, ""), (int, 0, ""), (bool, 0, ""), (float, 1, ""),
            (np.uint8, 0, ""), (bool, "mixed", "read-only, column by column"),
            (int, "mixed", "every other row and column of a larger array")]
STORAGE = ("{int, bool} x {unit, zero diagonal}, float and 8-bit integers, mixed diagonal, "
           "column-major and read-only, strided views")


def stored(adj, v):
    dtype, diag, memory = VARIANTS[v]
    g = ref.matrix(adj, dtype, 0 if diag == "mixed" else diag)
    if diag == "mixed":
        np.fill_diagonal(g, np.arange(len(adj)) % 3 == 1)
    if "column" in memory and "read" in memory:
        g = np.asfortranarray(g)
        g.flags.writeable = False
    elif memory:
        big = np.full((2 * len(adj), 2 * len(adj)), 1, dtype)
        big[::2, ::2] = g
        g = big[::2, ::2]
    return g


def name(v):
    dtype, diag, memory = VARIANTS[v]
    return f"{dtype.__name__}, diagonal {diag}" + (f", {memory}" if memory else "")


@lru_cache(maxsize=None)
def classes(n):
    return ref.classes(n)


def circulant(n, s):
    adj = [0] * n
    for i, d in enumerate(range(1, n // 2 + 1)):
        if s >> i & 1:
            for v in range(n):
                adj[v] |= 1 << (v + d) % n | 1 << (v - d) % n
    return tuple(adj)


@lru_cache(maxsize=None)
def sums(n):
    """all disjoint unions of connected graphs on at most 4 vertices"""
    parts = [g for k in (4, 3, 2, 1) for g in classes(k) if connected(g)]

    def rec(left, i):
        if left == 0:
            yield ()
            return
        for j in range(i, len(parts)):
            if len(parts[j]) <= left:
                for rest in rec(left - len(parts[j]), j):
                    yield (parts[j],) + rest

    out = []
    for ps in rec(n, 0):
        adj = ()
        for g in ps:
            adj += tuple(m << len(adj) for m in g)
        out.append(adj)
    return out


def connected(adj):
    seen = todo = 1
    while todo:
        v = todo & -todo
        todo ^= v
        new = adj[v.bit_length() - 1] & ~seen
        seen |= new
        todo |= new
    return seen == (1 << len(adj)) - 1


def complement(adj):
    full = (1 << len(adj)) - 1
    return tuple(full & ~m & ~(1 << v) for v, m in enumerate(adj))


FAMILIES = {
    # name: are u < v adjacent
    "empty": lambda u, v, n: False,
    "one edge": lambda u, v, n: (u, v) == (0, n - 1),
    "path": lambda u, v, n: v == u + 1,
    "cycle": lambda u, v, n: v == u + 1 or (u, v) == (0, n - 1),
    "star": lambda u, v, n: v == n - 1,
    "stars": lambda u, v, n: u % 3 == 0 and v - u <= 2,
    "far edges": lambda u, v, n: v == u + 1 and u in (0, n // 2, n - 2),
    "strip": lambda u, v, n: v - u <= 2,
    "triangles": lambda u, v, n: u // 3 == v // 3,
    "matching": lambda u, v, n: v == u + 1 and u % 2 == 0,
    "wheel": lambda u, v, n: u == 0 or v == u + 1 or (u, v) == (1, n - 1),
    "windmill": lambda u, v, n: u == 0 or (u - 1) // 2 == (v - 1) // 2,
    "complete": lambda u, v, n: True,
    "complete but one edge": lambda u, v, n: (u, v) != (0, n - 1),
    "two cliques": lambda u, v, n: (u < n // 2) == (v < n // 2),
    "overlapping cliques": lambda u, v, n: v < 2 * n // 3 or u >= n // 3,
    "bipartite": lambda u, v, n: u % 2 != v % 2,
    "multipartite": lambda u, v, n: u % 5 != v % 5,
    "threshold": lambda u, v, n: u + v >= n,
}
SPARSE = ("one edge", "path", "cycle", "star", "stars", "strip", "triangles", "matching", "wheel", "windmill")
DENSE = ("complete", "complete but one edge", "two cliques", "overlapping cliques", "threshold")


def family(name, n):
    adj = [0] * n
    for u in range(n):
        for v in range(u + 1, n):
            if FAMILIES[name](u, v, n):
                adj[u] |= 1 << v
                adj[v] |= 1 << u
    return tuple(adj)


def join(p, q, edges=0, shift=0):
    """q pairwise adjacent vertices, joined to p others having some edges among them"""
    n = p + q
    adj = [0] * n
    pairs = [(u, v) for u in range(p, n) for v in range(n) if v < u]
    near = [(u, (u + d) % p) for d in range(1, p // 2 + 1) for u in range(p) if d < p - d or u < d]
    for u, v in pairs + near[:edges]:
        adj[u] |= 1 << v
        adj[v] |= 1 << u
    return ref.relabel(tuple(adj), [(v + shift) % n for v in range(n)])


def wraps(top):
    """joins with p others for which the number of edges among the common neighbours of two
    vertices is too small by a multiple of 256 to make them a clique"""
    for n in range(17, top + 1):
        for k in (1, 2, 3, 4):
            e = n * (n - 1) // 2 - 256 * k - 1 - 2 * (n - 2)
            if 0 <= e:
                yield n - 2, 2, e


def graphs(case):
    kind = case[0]
    if kind == "join":
        yield join(*case[1:])
        return
    if kind == "fam":
        yield family(case[1], case[2])
        return
    if kind in ("sum", "cosum"):
        n, a, b, k = case[1:]
        for adj in sums(n)[a:b]:
            if kind == "cosum":
                adj = complement(adj)
            yield from {ref.relabel(adj, p): 0 for p in ref.perms_family(n, k)}
        return
    if kind == "all":
        for m in range(case[2], case[3]):
            yield ref.from_mask(case[1], m)
    elif kind == "cls":
        n, a, b, k = case[1:]
        perms = ref.perms_family(n, k)
        for adj in classes(n)[a:b]:
            seen = set()
            for p in perms:
                g = ref.relabel(adj, p)
                if g not in seen:
                    seen.add(g)
                    yield g
    elif kind == "circ":
        for s in range(case[2], case[3]):
            yield circulant(case[1], s)
    elif kind == "one":
        yield tuple(case[1])


def one(adj, *extra):
    return ["one", list(adj), *extra]


def all_labelled(n, size):
    return [["all", n, a, b] for a, b in ref.batches(0, 2 ** (n * (n - 1) // 2), size)]


def all_classes(n, k, size):
    return [["cls", n, a, b, k] for a, b in ref.batches(0, len(classes(n)), size)]


def all_circulants(n, size):
    return [["circ", n, a, b] for a, b in ref.batches(0, 2 ** (n // 2), size)]


def all_sums(kind, n, k, size):
    return [[kind, n, a, b, k] for a, b in ref.batches(0, len(sums(n)), size)]
