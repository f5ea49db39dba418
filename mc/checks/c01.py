"""C01: the exact search returns a valid cover for every graph, always."""
import numpy as np

import load
import ref
from checks._graphs import (FAMILIES, STORAGE, all_circulants, all_classes, all_labelled, all_sums,
                            graphs, name, one, stored, wraps)

ID = "C01"
TIMEOUT = 120
ASSUMPTIONS = [
    "graphs are given as square symmetric 0/1 numpy arrays",
]


def prepare(tier):
    global ecc
    ecc = load.light("ecc_algorithms")


def BOUND(tier):
    if tier == "quick":
        return ("all labelled graphs on 1-6 vertices, all graphs on 7 vertices (4 numberings "
                "each) and 8 vertices (identity numbering) up to isomorphism, all circulant "
                "graphs on 9-12 vertices (these reach the cut-off), all disjoint unions of connected "
                "graphs on at most 4 vertices on 9 and 10 vertices, families of graphs on 12, 17 "
                "and 33 vertices, 3 edges on 130 and 260, patterned joins on 26-40 vertices (counts of edges that differ by "
                "a multiple of 256 from a clique's); last step on all covers of up to 3x4 and on 127-70000 equal cliques; up to 4 vertices stored in all of 8 ways "
                f"({STORAGE}), else cycling through them")
    return ("all labelled graphs on 1-6 vertices; all graphs on 7 vertices in 200 numberings, "
            "8 vertices in 12 numberings, 9 vertices in one numbering, up to isomorphism; all "
            "circulant graphs on 9-16 vertices (these reach the cut-off); all disjoint unions of "
            "connected graphs on at most 4 vertices, and their complements, on 9-12 vertices; "
            "families of graphs on 12-70 vertices, patterned joins on 26-60; storage as above")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 7):
        out += all_labelled(n, 512)
    out += all_classes(7, 4 if q else 200, 64 if q else 8)
    out += all_classes(8, 1 if q else 12, 128)
    for n in range(9, 13 if q else 17):
        out += all_circulants(n, 1)
    for n in (9, 10) if q else (9, 10, 11, 12):
        out += all_sums("sum", n, 2 if q else 12, 16)
        if not q:
            out += all_sums("cosum", n, 2, 16)
    out += [["fam", f, n] for f in FAMILIES for n in (12, 17, 33) + (() if q else (64, 70))]
    out += [["fam", "far edges", n] for n in (130, 260)]
    out += [["join", *w, k] for w in wraps(40 if q else 60) for k in (0, 5)]
    out += [["isolated", l, m] for l in range(4) for m in range(1, 5)]
    out += [["isolated", l, m] for l in (127, 255, 256, 257, 512, 70000) for m in (2, 5)]
    if not q:
        out += all_classes(9, 1, 512)
    return out


def isolated(case, r):
    """the last step on its own: a row for every vertex in no clique, and for no other"""
    _, l, m = case
    if not hasattr(ecc, "add_isolated_verts"):
        return
    if l < 4:
        many = [np.array([k >> i & 1 for i in range(l * m)]).reshape(l, m) for k in range(2 ** (l * m))]
    else:
        many = [np.tile(np.array([k >> i & 1 for i in range(m)]), (l, 1)) for k in range(2 ** m)]
    for k, c in enumerate(many):
        c = c.astype((int, bool, np.uint8, np.int8, float)[k % 5])
        before = c.copy()
        ok, got = r.call(ecc.add_isolated_verts, c, _case=case, _what=f"add_isolated_verts ({c.dtype})")
        if not ok:
            return
        want = np.vstack([c.astype(bool)] + [np.arange(m) == j for j in range(m) if not c[:, j].any()])
        if np.asarray(got).shape != want.shape or not (np.asarray(got) == want).all() or not (c == before).all():
            return r.fail(f"{l} cliques {c[:3].astype(int).tolist()}... ({c.dtype}) become "
                          f"{len(got)} rows, should be {len(want)}", case)
        r.state(("isolated", l, m, k))
    r.trace(("isolated", l, m))


def run(case, r):
    if case[0] == "isolated":
        return isolated(case, r)
    for i, adj in enumerate(graphs(case)):
        for v in range(8) if case[0] == "one" or len(adj) <= 4 else [i % 8]:
            check(adj, v, r)


def check(adj, v, r):
    g = stored(adj, v)
    before = g.copy()
    c = one(adj)
    r.state((adj, v))
    ok, cover = r.call(ecc.find_clique_min_cover, g, _case=c, _what=f"find_clique_min_cover ({name(v)})")
    if not ok:
        return
    cover = np.asarray(cover)
    if cover.ndim != 2 or cover.shape[1] != len(adj):
        return r.fail(f"cover has shape {cover.shape}", c)
    if not np.isin(cover, (0, 1)).all():
        return r.fail("cover is not a 0/1 matrix", c)
    rows = ref.rows_to_masks(cover)
    bad = ref.cover_problems(adj, rows)
    if bad:
        return r.fail(f"{bad}; cover {[sorted(ref.bits(x)) for x in rows]}", c)
    if not (g == before).all():
        return r.fail("the caller's matrix was changed", c)
    r.trace((len(adj), len(rows)))
    if len(adj) >= 6 and len(rows) >= 5:
        r.sample({"edges": ref.edges(adj), "cover": [sorted(ref.bits(x)) for x in rows]})
