"""C02: the exact search returns as few cliques as possible, however the graph is written."""
import numpy as np

import load
import ref
from checks._graphs import (DENSE, SPARSE, STORAGE, all_classes, all_labelled, all_sums, graphs,
                            name, one, stored, wraps)

ID = "C02"
TIMEOUT = 120
ASSUMPTIONS = [
    "the search is not cut off below 9 vertices (measured: at most 1136 of 5000 branchings)",
]


def prepare(tier):
    global ecc
    ecc = load.light("ecc_algorithms")


def BOUND(tier):
    if tier == "quick":
        return (f"all labelled graphs on 1-5 vertices stored in 8 ways ({STORAGE}); all "
                "graphs on 6 vertices (up to isomorphism) in 60 numberings, 7 vertices in 6 and "
                "8 vertices in one numbering, all disjoint unions of connected graphs on at most 4 "
                "vertices on 9-10 vertices, families of graphs on 12-33 vertices, 3 edges on 130 and 260, patterned joins on 26-36, storage cycling "
                "through the eight ways")
    return (f"all labelled graphs on 1-6 vertices stored in 8 ways ({STORAGE}); all graphs "
            "on 7 vertices (up to isomorphism) in 120 and on 8 vertices in 12 numberings, all "
            "disjoint unions of connected graphs on at most 4 vertices on 9-13 vertices, families of "
            "graphs on 12-60 vertices, patterned joins on 26-60, storage cycling through the eight ways")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 7):
        out += all_labelled(n, 128)
    if q:
        out += all_classes(6, 60, 4)
    out += all_classes(7, 6 if q else 120, 32 if q else 8)
    out += all_classes(8, 1 if q else 12, 96)
    for n in (9, 10) if q else (9, 10, 11, 12, 13):
        out += all_sums("sum", n, 2 if q else 12, 16)
    out += [["fam", f, n] for f in SPARSE + DENSE for n in (12, 17, 33) + (() if q else (60,))]
    out += [["fam", "far edges", n] for n in (130, 260)]
    out += [["join", *w, k] for w in wraps(36 if q else 60) for k in (0, 5)]
    return out


def run(case, r):
    if case[0] == "one":
        variants = [tuple(case[2])] if len(case) > 2 else range(8)
        for v in variants:
            check(tuple(case[1]), v if isinstance(v, int) else v[0], r)
        return
    for i, adj in enumerate(graphs(case)):
        if case[0] == "all":
            for v in range(8):
                check(adj, v, r)
        else:
            check(adj, i % 8, r)


def check(adj, v, r):
    c = one(adj, [v])
    r.state((adj, v))
    ok, cover = r.call(ecc.find_clique_min_cover, stored(adj, v), _case=c,
                       _what=f"find_clique_min_cover ({name(v)})")
    if not ok:
        return
    rows = ref.rows_to_masks(cover)
    want = ref.ecc_number(ref.from_mask(len(adj), ref.to_mask(adj)))
    bad = ref.cover_problems(adj, rows)
    if bad:
        r.fail(f"not a cover: {bad}", c)
    elif len(rows) != want:
        r.fail(f"{len(rows)} rows, the minimum is {want} ({name(v)})", c)
    r.trace((len(adj), want))
    if len(adj) > 6 and want > 4:
        r.sample({"edges": ref.edges(adj), "rows": len(rows), "storage": name(v)})
