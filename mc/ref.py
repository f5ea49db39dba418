"""Reference models: small, boring, independent of medil (no numpy in the logic)."""
import itertools
from functools import lru_cache

import numpy as np


# ---- graphs: tuple of neighbour bitmasks (without the vertex itself)
def pairs(n):
    return list(itertools.combinations(range(n), 2))


def from_mask(n, mask):
    adj = [0] * n
    for i, (a, b) in enumerate(pairs(n)):
        if mask >> i & 1:
            adj[a] |= 1 << b
            adj[b] |= 1 << a
    return tuple(adj)


def to_mask(adj):
    return sum(1 << i for i, (a, b) in enumerate(pairs(len(adj))) if adj[a] >> b & 1)


def relabel(adj, perm):
    """vertex v becomes perm[v]"""
    out = [0] * len(adj)
    for v, m in enumerate(adj):
        for u in bits(m):
            out[perm[v]] |= 1 << perm[u]
    return tuple(out)


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


def matrix(adj, dtype=int, diag=1):
    n = len(adj)
    g = np.zeros((n, n), dtype)
    for v in range(n):
        for u in bits(adj[v]):
            g[v, u] = 1
        g[v, v] = diag
    return g


def edges(adj):
    return [(a, b) for a, b in pairs(len(adj)) if adj[a] >> b & 1]


def is_clique(adj, s):
    vs = list(bits(s))
    return all(s & ~(adj[v] | 1 << v) == 0 for v in vs)


def maximal_cliques(adj, within=None):
    """bitmasks of the maximal cliques (size >= 1) of the graph induced by `within`"""
    n = len(adj)
    if within is None:
        within = (1 << n) - 1
    out = []

    def bk(r, p, x):
        if not p and not x:
            out.append(r)
            return
        u = max(bits(p | x), key=lambda w: bin(p & adj[w]).count("1"))
        for v in bits(p & ~adj[u]):
            bk(r | 1 << v, p & adj[v], x & adj[v])
            p &= ~(1 << v)
            x |= 1 << v

    bk(0, within, 0)
    return out


def edge_bits(n):
    idx = {}
    for i, (a, b) in enumerate(pairs(n)):
        idx[a, b] = idx[b, a] = 1 << i
    return idx


def covered_by(s, idx):
    vs = list(bits(s))
    return sum(idx[a, b] for a, b in itertools.combinations(vs, 2))


def min_cover(adj, todo=None, within=None):
    """A smallest list of cliques (bitmasks) of the graph induced by `within` covering
    the edges in bitmask `todo` (default: all). Iterative deepening on the uncovered
    edge with fewest candidate cliques, with a packing lower bound."""
    n = len(adj)
    idx = edge_bits(n)
    if todo is None:
        todo = to_mask(adj)
    if within is None:
        within = (1 << n) - 1
    if not todo:
        return []
    cl = [(s, covered_by(s, idx)) for s in maximal_cliques(adj, within)]
    cl = [(s, e & todo) for s, e in cl if e & todo]
    # keep only candidates not dominated in what they cover
    cl = [c for i, c in enumerate(cl)
          if not any((c[1] | d[1]) == d[1] and (c[1] != d[1] or j < i) for j, d in enumerate(cl) if j != i)]
    by_edge = {}
    for s, e in cl:
        for b in bits(e):
            by_edge.setdefault(b, []).append((s, e))
    nbr = {b: 0 for b in by_edge}
    for b, cs in by_edge.items():
        for _, e in cs:
            nbr[b] |= e

    def bound(left):
        k = 0
        while left:
            b = min(bits(left), key=lambda b: bin(nbr[b] & left).count("1"))
            k += 1
            left &= ~nbr[b]
        return k

    def solve(left, k):
        if not left:
            return []
        if k == 0 or bound(left) > k:
            return None
        b = min(bits(left), key=lambda b: len(by_edge[b]))
        for s, e in by_edge[b]:
            r = solve(left & ~e, k - 1)
            if r is not None:
                return [s] + r
        return None

    assert all(b in by_edge for b in bits(todo))
    k = bound(todo)
    while True:
        r = solve(todo, k)
        if r is not None:
            return r
        k += 1


@lru_cache(maxsize=None)
def ecc_number(adj):
    """edge clique cover number plus isolated vertices"""
    return len(min_cover(adj)) + sum(1 for m in adj if not m)


def independence_number(adj):
    n = len(adj)
    comp = tuple(((1 << n) - 1) & ~adj[v] & ~(1 << v) for v in range(n))
    return max(bin(s).count("1") for s in maximal_cliques(comp))


def rows_to_masks(m):
    return [sum(1 << j for j, x in enumerate(r) if x) for r in np.asarray(m).tolist()]


def cover_problems(adj, rows):
    """Why the bitmask rows are not a complete edge clique cover with all vertices."""
    n = len(adj)
    idx = edge_bits(n)
    got = verts = 0
    for r in rows:
        if r == 0:
            return "an empty row"
        if not is_clique(adj, r):
            return f"row {sorted(bits(r))} is not a clique"
        got |= covered_by(r, idx)
        verts |= r
    miss = to_mask(adj) & ~got
    if miss:
        return f"edges {[pairs(n)[b] for b in bits(miss)]} are in no row"
    if verts != (1 << n) - 1:
        return "some vertex is in no row"
    return None


# ---- families of graphs
def classes(n):
    """all graphs on n vertices up to isomorphism (n <= 9)"""
    if n <= 7:
        from networkx.generators.atlas import graph_atlas_g

        out = []
        for g in graph_atlas_g():
            if len(g) == n:
                adj = [0] * n
                for a, b in g.edges:
                    adj[a] |= 1 << b
                    adj[b] |= 1 << a
                out.append(tuple(adj))
        return out
    import gzip
    import os

    assert n in (8, 9)
    here = os.path.dirname(os.path.abspath(__file__))
    path = here + ("/data/graphs8.txt" if n == 8 else "/data/graphs9.txt.gz")
    with (open if n == 8 else gzip.open)(path, "rt") as f:
        out = [_from_hex(n, line) for line in f]
    assert len(out) == {8: 12346, 9: 274668}[n]
    return out


def _from_hex(n, line):
    v, b = int(line, 16), 0
    adj = [0] * n
    for i in range(1, n):
        for j in range(i):
            if v >> b & 1:
                adj[i] |= 1 << j
                adj[j] |= 1 << i
            b += 1
    return tuple(adj)


def perms_family(n, k):
    """k fixed, distinct relabellings of n vertices: identity, reversal, then affine and
    pseudo-random ones (a fixed linear congruential generator; no seed)"""
    out = [tuple(range(n)), tuple(reversed(range(n)))]
    x = 12345
    while len(out) < k:
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            x = (1103515245 * x + 12345) % (1 << 31)
            j = (x >> 8) % (i + 1)
            p[i], p[j] = p[j], p[i]
        if tuple(p) not in out:
            out.append(tuple(p))
    return out[:k]


def batches(lo, hi, size):
    return [[a, min(a + size, hi)] for a in range(lo, hi, size)]
