"""C03: max_cliques yields every maximal clique exactly once and nothing else."""
import load
import ref
from checks._graphs import (DENSE, FAMILIES, SPARSE, STORAGE, all_circulants, all_classes,
                            all_labelled, all_sums, graphs, name, one, stored)

ID = "C03"
TIMEOUT = 60


def prepare(tier):
    global ecc
    ecc = load.light("ecc_algorithms")


def BOUND(tier):
    q = tier == "quick"
    return (f"all labelled graphs on 1-{'6' if q else '7'} vertices, all graphs on "
            f"{'7-9' if q else '8-9'} vertices up to isomorphism (in several numberings), all circulant graphs on "
            f"9-{14 if q else 18} vertices, all disjoint unions of connected graphs on at most 4 "
            f"vertices, and their complements, on 10{'' if q else '-14'} and 12 vertices, families of graphs on 16-130 "
            f"vertices; stored in 8 ways ({STORAGE}) up to 5 vertices, cycling through them above")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 7 if q else 8):
        out += all_labelled(n, 1024)
    if q:
        out += all_classes(7, 4, 128)
    out += all_classes(8, 4 if q else 40, 512)
    out += all_classes(9, 1 if q else 4, 4096)
    for n in range(9, 15 if q else 19):
        out += all_circulants(n, 8)
    for n in (10, 12) if q else (10, 11, 12, 13, 14):
        for kind in ("sum", "cosum"):
            out += all_sums(kind, n, 2 if q else 6, 32)
    for n in (16, 31, 33, 63, 65, 130):
        out += [["fam", f, n] for f in SPARSE + DENSE]
    out += [["fam", f, n] for f in FAMILIES for n in (16, 31, 33)]
    return out


def run(case, r):
    for i, adj in enumerate(graphs(case)):
        if case[0] == "one" or len(adj) <= 5:
            vs = range(8)
        else:
            vs = [i % 8]
        want = sorted(ref.maximal_cliques(adj))
        for v in vs:
            check(adj, v, want, r)


def check(adj, v, want, r):
    g = stored(adj, v)
    before = g.copy()
    c = one(adj)
    r.state((adj, v))
    ok, got = r.call(lambda: [list(q) for q in ecc.max_cliques(g)], _case=c, _what=f"max_cliques ({name(v)})")
    if not ok:
        return
    for q in got:
        if len(set(int(x) for x in q)) != len(q):
            r.fail(f"clique {q} repeats a vertex", c)
    masks = [sum(1 << int(x) for x in set(q)) for q in got]
    if sorted(masks) != want:
        extra = [sorted(ref.bits(m)) for m in masks if masks.count(m) > want.count(m)]
        miss = [sorted(ref.bits(m)) for m in want if m not in masks]
        r.fail(f"wrong or repeated: {extra[:5]}, missing: {miss[:5]}", c)
    if not (g == before).all():
        r.fail("the caller's matrix was changed", c)
    r.trace((len(adj), len(masks)))
    if len(masks) > 8:
        r.sample({"edges": ref.edges(adj), "maximal_cliques": len(masks)})
