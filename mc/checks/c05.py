"""C05: every sequence of operations over a family of reducible copies: operations on one
copy never change another object, and reset() gives back a fresh copy's behaviour."""
import numpy as np

import load
import ref
from checks._graphs import classes, graphs, one

ID = "C05"
TIMEOUT = 60
OPS = ("reduce", "rule_1", "rule_2", "rule_3", "first", "last", "copy", "reset")
ASSUMPTIONS = [
    "steps: the three rules, a full reduction, covering with the first or last maximal clique "
    "of the chosen neighbourhood, copying, resetting",
]


def prepare(tier):
    global ecc, graph
    ecc, graph = load.light("ecc_algorithms", "graph")


def depth(case):
    return case[-1]


def BOUND(tier):
    if tier == "quick":
        return ("all operation sequences of length <= 3 on up to 3 copies (copies of copies "
                "included) for all graphs up to isomorphism on 3-4 vertices and every 5th on"
                " 5, <= 2 for 5, every 2nd on 6 and every 12th on 7 vertices; reset tried after every sequence")
    return ("all operation sequences of length <= 4 on up to 3 copies for all graphs up to "
            "isomorphism on 3-4 vertices, of length <= 3 for 5 and 6, <= 2 for 7 vertices; reset "
            "tried after every sequence")


def cases(tier):
    q = tier == "quick"
    out = []
    for n, d, step in ((3, 3, 1), (4, 3, 1), (5, 2, 1), (5, 3, 5), (6, 2, 2), (7, 2, 12)) if q else (
        (3, 4, 1), (4, 4, 1), (5, 3, 1), (6, 3, 1), (7, 2, 1)
    ):
        cl = [i for i, g in enumerate(classes(n)) if any(g)]
        out += [["cls", n, i, i + 1, 2 if n < (4 if q else 7) else 1, d] for i in cl[::step]]
    return out


NEEDED = ("reducible_copy", "rule_1", "rule_2", "rule_3", "reduzieren", "choose_nbrhood",
          "cover_edges", "reconstruct_cover", "reset")


def run(case, r):
    root = graph.UndirectedDependenceGraph(np.ones((2, 2), int))
    root.make_aux()
    probe = root.reducible_copy()
    gone = [m for m in NEEDED if not hasattr(probe, m)]
    gone += [] if hasattr(ecc, "max_cliques") else ["max_cliques"]
    if gone:
        r.note(f"the reduction machine no longer has {gone}: nothing explored")
        return
    for adj in graphs(case if case[0] == "one" else case[:-1]):
        explore(adj, depth(case), r)


class Skip(Exception):
    pass


def snap(o):
    out = {}
    for k, v in vars(o).items():
        if isinstance(v, np.ndarray):
            out[k] = (v.dtype.str, v.shape, v.tobytes())
        elif v is None or isinstance(v, (int, float, str, list, tuple, np.generic)):
            out[k] = repr(v)
    return out


def changed(before, o):
    now = snap(o)
    return [k for k in before if k not in now or now[k] != before[k]]


def step(pool, who, op):
    """execute one operation; returns the objects it may change"""
    g = pool[who]
    if op == "copy":
        if len(pool) >= 4:
            raise Skip
        pool.append(g.reducible_copy())
        return []
    if who == 0:
        raise Skip  # the root graph offers nothing but copying
    if op == "reset":
        g.reset()
    elif op == "reduce":
        g.reduzieren(99)
    elif op == "rule_2":
        g.k_num_cliques = 99
        g.rule_2()
    elif op in ("rule_1", "rule_3"):
        getattr(g, op)()
    else:
        if not np.triu(g.adj_matrix, 1).any():
            raise Skip
        cl = [list(c) for c in ecc.max_cliques(g.choose_nbrhood()) if len(c) > 1]
        row = np.zeros((1, len(g.adj_matrix)), int)
        row[0, cl[0 if op == "first" else -1]] = 1
        g.the_cover = row if g.the_cover is None else np.vstack((g.the_cover, row))
        g.cover_edges()
    return [g]


def replay_path(adj, path):
    root = graph.UndirectedDependenceGraph(ref.matrix(adj))
    root.make_aux()
    pool = [root]
    pool.append(root.reducible_copy())
    problems = []
    for who, op in path:
        if who >= len(pool):
            raise Skip
        before = [(i, o, snap(o)) for i, o in enumerate(pool)]
        may = step(pool, who, op)
        for i, o, s in before:
            if not any(o is m for m in may):
                bad = changed(s, o)
                if bad:
                    problems.append(f"{op} on object {who} changed {bad} of object {i}")
    return pool, problems


def behaviour(g, script):
    """what a user of the copy can observe"""
    out = [obs(g)]
    pool = [None, g]
    for op in script:
        try:
            step(pool, 1, op)
        except Skip:
            continue
        out.append((op, obs(g)))
    return out


def obs(g):
    cover = None if g.the_cover is None else ref.rows_to_masks(g.the_cover)
    full = None if cover is None else ref.rows_to_masks(g.reconstruct_cover(np.array(g.the_cover)))
    return (np.asarray(g.adj_matrix).astype(int).tolist(), int(g.num_edges), int(g.num_vertices),
            sorted(int(i) for i in getattr(g, "extant_edges_idx", ())), cover, full)


SCRIPTS = (("reduce",), ("first", "reduce"), ("rule_3", "rule_1", "last", "reduce"))


def explore(adj, d, r):
    c = one(adj, d)
    stack = [()]
    n = 0
    fresh = None
    while stack:
        path = stack.pop()
        ok, got = r.call(_run, adj, path, _case=c, _what=f"operations {list(path)}")
        if not ok:
            return
        pool, problems = got
        if pool is None:  # the last operation isn't applicable
            continue
        n += 1
        r.state((adj, path))
        if problems:
            r.fail(f"after {list(path)}: {problems[0]}", c)
        # reset on every copy, then compare with a fresh copy
        for who in range(1, len(pool)):
            if fresh is None:
                fresh = {s: behaviour(replay_path(adj, ())[0][1], s) for s in SCRIPTS}
            s = SCRIPTS[(n + who) % len(SCRIPTS)]
            ok, got = r.call(_reset, adj, path, who, s, _case=c,
                             _what=f"operations {list(path)}, reset, {list(s)}")
            if not ok:
                return
            if got != fresh[s]:
                i = next(i for i, (a, b) in enumerate(zip(got, fresh[s])) if a != b)
                r.fail(f"after {list(path)} and reset of object {who}, then {list(s)[:i]}: "
                       f"{got[i]} but a fresh copy gives {fresh[s][i]}", c)
            r.trace(len(path))
        if len(path) < d:
            for who in range(len(pool)):
                for op in OPS:
                    if who == 0 and op != "copy":
                        continue
                    stack.append(path + ((who, op),))
    r.sample({"edges": ref.edges(adj), "sequences": n, "length": d})


def _run(adj, path):
    try:
        return replay_path(adj, path)
    except Skip:
        return _SKIPPED


_SKIPPED = (None, None)


def _reset(adj, path, who, script):
    pool, _ = replay_path(adj, path)
    g = pool[who]
    g.reset()
    return behaviour(g, script)
