"""C07: the one-pure-child heuristic explains every dependence of every graph."""
import numpy as np

import load
import ref
from checks._graphs import (DENSE, FAMILIES, STORAGE, all_circulants, all_classes, all_labelled,
                            all_sums, graphs, name, one, stored)

ID = "C07"
TIMEOUT = 60


def prepare(tier):
    global ecc
    ecc = load.light("ecc_algorithms")


def BOUND(tier):
    q = tier == "quick"
    return (f"all labelled graphs on 1-{'5' if q else '6'} vertices stored in 8 ways ({STORAGE}"
            f"); all labelled graphs on {'6' if q else '7'} vertices, all graphs on "
            f"{'7, 8 (4 numberings each) and 9' if q else '8 (40 numberings) and 9 (4 numberings)'} vertices up to "
            f"isomorphism, all circulant graphs on 9-{13 if q else 17} vertices, all disjoint unions "
            f"of connected graphs on at most 4 vertices on 10-{12 if q else 14} vertices (in 4 "
            "numberings) and their complements, families of graphs on 12-65 vertices, two vertices joined to 126-300 others, storage "
            "cycling through the eight ways")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 7 if q else 8):
        out += all_labelled(n, 512)
    if q:
        out += all_classes(7, 4, 64)
    out += all_classes(8, 4 if q else 40, 256)
    out += all_classes(9, 1 if q else 4, 4096)
    for n in range(9, 14 if q else 18):
        out += all_circulants(n, 8)
    for n in (10, 11, 12) if q else (10, 11, 12, 13, 14):
        out += all_sums("sum", n, 4 if q else 12, 16) + all_sums("cosum", n, 1 if q else 6, 64)
    out += [["fam", f, n] for f in FAMILIES for n in (12, 14)]
    out += [["fam", f, n] for f in DENSE + ("star", "bipartite", "multipartite", "empty", "one edge")
            for n in (17, 33, 65)]
    out += [["fam", "stars", n] for n in (18, 24, 33)]
    out += [["join", p, 2, 0, s] for p in (126, 127, 128, 254, 255, 256, 257, 300) for s in (0, 3)]
    return out


def run(case, r):
    for i, adj in enumerate(graphs(case)):
        vs = range(8) if case[0] == "one" or len(adj) <= 5 else [i % 8]
        for v in vs:
            check(adj, v, r)


def check(adj, v, r):
    n = len(adj)
    g = stored(adj, v)
    before = g.copy()
    c = one(adj)
    r.state((adj, v))
    ok, cover = r.call(ecc.find_heuristic_1pc, g, _case=c,
                       _what=f"find_heuristic_1pc ({name(v)})")
    if not ok:
        return
    cover = np.asarray(cover)
    if cover.dtype != bool or cover.ndim != 2 or cover.shape[1] != n:
        return r.fail(f"returned {cover.dtype} array of shape {cover.shape}", c)
    rows = ref.rows_to_masks(cover)
    alpha = ref.independence_number(adj)
    if len(rows) != alpha:
        r.fail(f"{len(rows)} rows, the largest independent set has {alpha}", c)
    if not (g == before).all():
        r.fail("the caller's matrix was changed", c)
    both = [0] * n
    for m in rows:
        for x in ref.bits(m):
            both[x] |= m
    if any(both[x] == 0 for x in range(n)):
        r.fail("some vertex is in no row", c)
    for a, b in ref.edges(adj):
        if not both[a] >> b & 1:
            r.fail(f"edge {a, b} is in no row", c)
    # every row has a measurement of its own: distinct representatives that are pairwise
    # independent and each in its own row together with all of its neighbours
    cand = [[x for x in ref.bits(m) if (adj[x] & ~m) == 0] for m in rows]

    def reps(i, used):
        if i == len(rows):
            return True
        return any(not (adj[x] & used or used >> x & 1) and reps(i + 1, used | 1 << x)
                   for x in cand[i])

    if not reps(0, 0):
        r.fail("rows are not grown from pairwise independent measurements", c)
    r.trace((n, alpha, sum(bin(m).count("1") for m in rows)))
    if n > 6 and alpha > 3:
        r.sample({"edges": ref.edges(adj), "rows": [sorted(ref.bits(m)) for m in rows]})
