"""C06: edge edits against a set of edges, and export read back."""
import itertools
import os

import numpy as np

import load
import ref
from checks import c05
from checks._graphs import all_classes, all_labelled, classes, graphs, one

ID = "C06"
TIMEOUT = 30


def prepare(tier):
    global graph
    graph = load.light("graph")
    c05.prepare(tier)


def BOUND(tier):
    q = tier == "quick"
    return ("edits: all reachable edge sets on 2-4 vertices (BFS from the empty, complete and path "
            "graphs, plain and reducible, int and bool), from each every batch of 1 or 2 directed "
            f"pairs added or removed, and all edit sequences of length {2 if q else 3}; export: all "
            f"labelled graphs on 1-{5 if q else 6} vertices, with and without a preceding edit, "
            "int and bool; edits and export with large batches on 6-130 vertices, stored as int, bool or bytes; search "
            f"after editing: all pairs of graphs on 4 vertices, all single{'' if q else ' and double'} edits "
            "of graphs on 5 vertices up to isomorphism")


def cases(tier):
    q = tier == "quick"
    out = [["edit", n, cls, dt, k] for n in (2, 3, 4) for cls in ("plain", "reducible")
           for dt in ("int", "bool") for k in range(2 if n < 4 else 8)]
    out += [["seq", n, a, 2 if q else 3] for n in (3, 4) for a in range(n * (n - 1))]
    for n in range(1, 6 if q else 7):
        out += [["nde", c] for c in all_labelled(n, 64)]
    out += [["nde", c] for c in all_classes(7, 1, 64)]
    out += [["search", 4, a] for a in range(64)]
    out += [["search", 5, i, 1 if q else 2] for i in range(len(classes(5)))]
    out += [["large", n, k] for n in (6, 9, 13, 21, 40, 130) for k in range(8)]
    return out


def make(n, edges, cls, dt):
    m = np.eye(n, dtype=dt)
    for a, b in edges:
        m[a, b] = m[b, a] = 1
    g = graph.UndirectedDependenceGraph(m)
    if cls == "reducible":
        g.make_aux()
        g = g.reducible_copy()
    return g


def read(g):
    m = np.asarray(g.adj_matrix)
    n = len(m)
    return {(a, b) for a, b in itertools.permutations(range(n), 2) if m[a, b]}


def closed(edges):
    return {(a, b) for a, b in edges} | {(b, a) for a, b in edges}


def compare(g, model, what, r, case):
    got = read(g)
    m = np.asarray(g.adj_matrix)
    n = len(m)
    if got != closed(model):
        r.fail(f"{what}: edges {sorted(got)}, should be {sorted(closed(model))}", case)
    if int(g.num_edges) != len(closed(model)) // 2:
        r.fail(f"{what}: num_edges {g.num_edges}, should be {len(closed(model)) // 2}", case)
    if int(g.num_vertices) != n or not m.diagonal().all() or int(g.max_num_verts
            if hasattr(g, "max_num_verts") else n) != n:
        r.fail(f"{what}: vertices changed", case)


def do(g, kind, batch):
    getattr(g, kind + "_edges")(np.array(batch, int).reshape(-1, 2))


def after(model, kind, batch):
    return closed(model) | closed(batch) if kind == "add" else closed(model) - closed(batch)


def run(case, r):
    if case[0] in ("nde", "search", "large"):
        return globals()[case[0]](case, r)
    n = case[1]
    directed = list(itertools.permutations(range(n), 2))
    if case[0] == "seq":
        for rest in itertools.product(itertools.product(("add", "rm"), directed), repeat=case[3]):
            path = [("add", directed[case[2]])] + list(rest)
            g, model = make(n, [(0, 1), (1, 2)], "plain", int), {(0, 1), (1, 2)}
            for kind, e in path:
                ok, _ = r.call(do, g, kind, [e], _case=case, _what=f"{path}")
                if not ok:
                    return
                model = after(model, kind, [e])
            compare(g, model, f"{path}", r, case)
            r.state(tuple(path))
            r.trace(len(model) // 2)
        return
    _, _, cls, dt, part = case
    parts = 2 if n < 4 else 8
    batches = [[e] for e in directed] + [list(p) for p in itertools.product(directed, repeat=2)]
    batches += [[], ref.pairs(n), list(reversed(directed))]
    und = ref.pairs(n)
    for mask in range(part, 2 ** len(und), parts):
        edges = [und[i] for i in ref.bits(mask)]
        if cls == "reducible" and not edges:
            continue  # there is nothing to reduce
        for kind in ("add", "rm"):
            for batch in batches:
                g = make(n, edges, cls, dt)
                ok, _ = r.call(do, g, kind, batch, _case=case,
                               _what=f"{kind}_edges({batch}) on {edges}")
                if not ok:
                    return
                compare(g, after(edges, kind, batch), f"{kind} {batch} on {edges}", r, case)
                r.state((cls, dt, n, mask, kind, tuple(batch)))
                r.trace((kind, len(edges)))
    r.sample({"vertices": n, "class": cls, "dtype": dt, "batches per state": 2 * len(batches)})


def nde(case, r):
    for adj in graphs(case[1]):
        for dt, edit in ((int, False), (bool, False), (int, True)):
            n = len(adj)
            g = graph.UndirectedDependenceGraph(ref.matrix(adj, dt))
            model = set(ref.edges(adj))
            if edit and n > 2:
                do(g, "add", [(2, 0)])
                do(g, "rm", [(1, 0)])
                model = after(after(model, "add", [(2, 0)]), "rm", [(1, 0)])
            c = ["nde", one(adj)]
            if not export(g, model, c, r):
                return
            r.state((adj, dt.__name__, edit))
            r.trace(("nde", n, len(model)))


def search(case, r):
    """a graph is prepared for search, edited, and prepared again"""
    n = case[1]
    und = ref.pairs(n)
    if n == 4:
        a = {und[i] for i in ref.bits(case[2])}
        goals = [{und[i] for i in ref.bits(k)} for k in range(1, 64)]
    else:
        a = set(ref.edges(classes(n)[case[2]]))
        goals = [a ^ set(x) for k in range(1, case[3] + 1) for x in itertools.combinations(und, k)]
    for b in goals:
        if not b:
            continue
        for order in ("add", "rm") if a - b and b - a else ("add",):
            def edited():
                g = make(n, a, "plain", int)
                if a:
                    g.make_aux()
                for kind in (order, {"add": "rm", "rm": "add"}[order]):
                    batch = sorted(b - a if kind == "add" else a - b)
                    if batch:
                        do(g, kind, batch)
                g.make_aux()
                return results(g)

            def fresh():
                g = make(n, b, "plain", int)
                g.make_aux()
                return results(g)

            what = f"{sorted(a)} edited to {sorted(b)} and prepared for search"
            ok, got = r.call(edited, _case=case, _what=what)
            ok2, want = r.call(fresh, _case=case, _what=f"search prepared for {sorted(b)}")
            if not (ok and ok2):
                return
            if got != want:
                r.fail(f"{what}: {got}, a new graph with these edges gives {want}", case)
            r.state(("search", n, tuple(sorted(a)), tuple(sorted(b)), order))
            r.trace(("search", n, len(b)))


def results(g):
    return [c05.behaviour(g.reducible_copy(), s) for s in c05.SCRIPTS]


def large(case, r):
    """patterned batches on larger graphs"""
    _, n, k = case
    dt = (int, bool, np.uint8, np.int8)[k % 4]
    model = {(u, v) for u, v in ref.pairs(n) if (u * 7 + v * 3 + k) % 5 < 2}
    g = make(n, model, "plain", dt)
    for step in range(4):
        pool = [(u, v) for u, v in itertools.permutations(range(n), 2) if (u * (step + 2) + v + k) % 4 == 0]
        if step == 3:
            pool = pool + pool[::-1]  # each one twice
        kind = ("rm", "add")[(step + k) % 2]
        ok, _ = r.call(do, g, kind, pool, _case=case, _what=f"{kind}_edges of {len(pool)} pairs")
        if not ok:
            return
        model = after(model, kind, pool)
        compare(g, model, f"{n} vertices, {kind} step {step}", r, case)
        if not export(g, model, case, r):
            return
        r.state(("large", n, k, step))
        r.trace(("large", n))


def export(g, model, c, r):
    n = len(g.adj_matrix)
    name = os.path.abspath(f"g{os.getpid()}")
    for _ in range(2):  # the second time over an existing file
        ok, _ = r.call(g.convert_to_nde, name, _case=c, _what="convert_to_nde")
        if not ok:
            return False
    with open(name + ".nde") as f:
        lines = f.read().split("\n")
    os.remove(name + ".nde")
    try:
        num = int(lines[0])
        deg = [tuple(map(int, x.split())) for x in lines[1:num + 1]]
        pairs = [tuple(map(int, x.split())) for x in lines[num + 1:] if x.strip()]
        assert all(len(p) == 2 for p in deg + pairs)
    except Exception as e:
        r.fail(f"file cannot be read back: {e!r}: {lines[:6]}", c)
        return True
    m = np.asarray(g.adj_matrix).astype(int)
    want = sorted((a, b) for a, b in closed(model) if a < b)
    if num != n:
        r.fail(f"{num} vertices, should be {n}", c)
    elif deg != [(i, int(x)) for i, x in enumerate(m.sum(1))]:
        r.fail(f"row sums {deg}, should be {m.sum(1).tolist()}", c)
    elif sorted((min(p), max(p)) for p in pairs if p[0] != p[1]) != want:
        r.fail(f"edges {pairs}, should be {want}", c)
    elif any(not 0 <= v < n for p in pairs for v in p):
        r.fail(f"edges {pairs} name vertices that don't exist", c)
    return True
