"""C04: explicit-state exploration of the reduction machine of the exact search.

For each graph, the states reachable from a fresh reducible copy by the operations the
search uses are enumerated:
  reduce-A   rule 1, rule 2                       (as in one round of reduzieren)
  reduce-B   rule 1, rule 3, rule 1               (only when rule 2 does not apply)
  branch-i   reducible copy, i-th maximal clique of choose_nbrhood added and covered
  full-k     reduzieren(k) for k = optimum and optimum - 1
Each state is produced by executing the operations from the initial state on the real
classes. The reference value of a state is its optimum: cliques chosen plus the fewest
cliques of the remaining graph that cover its uncovered edges."""
import numpy as np

import load
import ref
from checks._graphs import all_classes, all_labelled, graphs, one

ID = "C04"
TIMEOUT = 60
ASSUMPTIONS = [
    "auxiliary data are compared for the uncovered edges only, the ones the search consults",
    "rule 3 is applied only when rule 2 does not apply, as the search does",
]


def prepare(tier):
    global ecc, graph
    ecc, graph = load.light("ecc_algorithms", "graph")


def BOUND(tier):
    if tier == "quick":
        return ("all states reachable by any number of steps from all labelled graphs on 2-5 "
                "vertices, by any number of reductions and at most 3 (2) branchings from all graphs on 6 "
                "(7) vertices up to isomorphism, in 6 (1) numberings")
    return ("all states reachable by any number of steps from all labelled graphs on 2-5 "
            "vertices, by any number of reductions and at most 5 (4, 2) branchings from all graphs on 6 "
            "(7, 8) vertices up to isomorphism, in 40 (6, 1) numberings")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 6):
        out += all_labelled(n, 16)
    out += all_classes(6, 6 if q else 40, 1)
    out += all_classes(7, 1 if q else 6, 2)
    if not q:
        out += all_classes(8, 1, 32)
    return [c + [branches(c[1], tier)] for c in out]


def branches(n, tier):
    return ({6: 3, 7: 2} if tier == "quick" else {6: 5, 7: 4, 8: 2}).get(n, 99)


NEEDED = ("reducible_copy", "rule_1", "rule_2", "rule_3", "reduzieren", "choose_nbrhood",
          "cover_edges", "reconstruct_cover")


def machine_missing(probe):
    """the reduction machine's own interface; without it there is nothing to explore"""
    gone = [m for m in NEEDED if not hasattr(probe, m)]
    return gone + ([] if hasattr(ecc, "max_cliques") else ["max_cliques"])


def run(case, r):
    root = graph.UndirectedDependenceGraph(np.ones((2, 2), int))
    root.make_aux()
    gone = machine_missing(root.reducible_copy())
    if gone:
        r.note(f"the reduction machine no longer has {gone}: nothing explored")
        return
    for adj in graphs(case if case[0] == "one" else case[:-1]):
        Machine(adj, r, case[-1] if case[0] != "one" else case[2]).explore()


class Machine:
    def __init__(self, adj, r, branches):
        self.branches = branches
        self.adj, self.n, self.r = adj, len(adj), r
        self.idx = ref.edge_bits(self.n)
        self.pairs = ref.pairs(self.n)
        self.memo = {}

    # ---- abstraction of the real object
    def verts(self, g):
        return sum(1 << v for v in range(self.n) if g.adj_matrix[v, v])

    def todo(self, g):
        return sum(b for (u, v), b in self.idx.items() if u < v and g.adj_matrix[u, v])

    def cover(self, g):
        return [] if g.the_cover is None else ref.rows_to_masks(g.the_cover)

    def rest(self, todo, verts):
        k = (todo, verts)
        if k not in self.memo:
            self.memo[k] = ref.min_cover(self.adj, todo, verts)
        return self.memo[k]

    def value(self, g):
        return len(self.cover(g)) + len(self.rest(self.todo(g), self.verts(g)))

    # ---- operations on the real object
    def fresh(self):
        root = graph.UndirectedDependenceGraph(ref.matrix(self.adj))
        root.make_aux()
        return root.reducible_copy()

    def apply(self, g, op):
        if op == "A":
            g.k_num_cliques = 99
            g.rule_1()
            g.rule_2()
        elif op == "B":
            g.rule_1()
            g.rule_3()
            g.rule_1()
        else:
            i = op[1]
            clique = [list(c) for c in ecc.max_cliques(g.choose_nbrhood()) if len(c) > 1][i]
            h = g.reducible_copy()
            row = np.zeros((1, self.n), int)
            row[0, clique] = 1
            h.the_cover = row if g.the_cover is None else np.vstack((g.the_cover, row))
            h.cover_edges()
            g = h
        return g

    def at(self, path):
        g = self.fresh()
        for op in path:
            g = self.apply(g, op)
        return g

    def explore(self):
        r, adj = self.r, self.adj
        if not ref.to_mask(adj):
            return
        first = self.guard((), ())
        if first is None:
            return
        best = self.value(first)
        seen = {self.key(first, ())}
        stack = [((), ())]
        while stack:
            path, hist = stack.pop()
            g = self.at(path)
            r.state((adj, self.key(g, hist)))
            self.invariants(g, path)
            val = self.value(g)
            self.full(path, val - len(self.cover(g)))
            if not self.todo(g):
                r.trace((self.n, val))
                continue
            # reductions keep the optimum
            h = self.guard(path, ("A",))
            if h is None:
                return
            if len(self.cover(h)) == len(self.cover(g)):
                h = self.guard(path, ("B",))
                if h is None:
                    return
                op = "B"
            else:
                op = "A"
            if self.value(h) != val:
                self.bad(path + (op,), f"reduction changed the optimum from {val} to {self.value(h)}")
            self.push(h, path, hist, op, g, seen, stack)
            # branching keeps the optimum
            if sum(1 for o in path if o not in ("A", "B")) >= self.branches:
                continue
            try:
                k = len([c for c in ecc.max_cliques(g.choose_nbrhood()) if len(c) > 1])
            except Exception as e:
                self.bad(path, f"choose_nbrhood raised {e!r}")
                return
            vals = []
            for i in range(k):
                h = self.guard(path, (("C", i),))
                if h is None:
                    return
                vals.append(self.value(h))
                self.push(h, path, hist, ("C", i), g, seen, stack)
            if not vals or min(vals) != val:
                self.bad(path, f"best of the {k} branches needs {min(vals, default=None)} cliques, "
                               f"the state itself needs {val}")
        if best > 3:
            r.sample({"edges": ref.edges(adj), "states": len(seen), "optimum": best})

    def key(self, g, hist):
        return (self.todo(g), self.verts(g), tuple(sorted(self.cover(g))), hist)

    def push(self, h, path, hist, op, g, seen, stack):
        gone = self.verts(g) & ~self.verts(h)
        if op == "B" and self.todo(g) != self.todo(h):  # vertices deleted by rule 3, and when
            hist = hist + ((gone, tuple(sorted(self.cover(h)))),)
        k = self.key(h, hist)
        if k not in seen:
            seen.add(k)
            stack.append((path + (op,), hist))

    def guard(self, path, more):
        ok, g = self.r.call(self.at, tuple(path) + tuple(more), _case=one(self.adj, self.branches),
                            _what=f"operations {list(path) + list(more)}")
        return g if ok else None

    def bad(self, path, msg):
        self.r.fail(f"after {list(path)}: {msg}", one(self.adj, self.branches))

    # ---- invariants
    def invariants(self, g, path):
        adj, n = self.adj, self.n
        m = np.asarray(g.adj_matrix)
        verts, todo = self.verts(g), self.todo(g)
        if not (m == m.T).all():
            self.bad(path, "adjacency matrix is not symmetric")
        if hasattr(g, "num_edges") and int(g.num_edges) != bin(todo).count("1"):
            self.bad(path, f"num_edges {g.num_edges}, {bin(todo).count('1')} edges are uncovered")
        if hasattr(g, "num_vertices") and int(g.num_vertices) != bin(verts).count("1"):
            self.bad(path, f"num_vertices {g.num_vertices}, {bin(verts).count('1')} remain")
        get_idx = getattr(g, "get_idx", None)
        if get_idx and hasattr(g, "extant_edges_idx"):
            ids = sorted(int(i) for i in g.extant_edges_idx)
            want = sorted(int(get_idx(self.pairs[b])) for b in ref.bits(todo))
            if ids != want:
                self.bad(path, f"uncovered edge numbers {ids}, should be {want}")
        cov = 0
        for row in self.cover(g):
            if not ref.is_clique(adj, row):
                self.bad(path, f"chosen {sorted(ref.bits(row))} is no clique")
            cov |= ref.covered_by(row, self.idx)
        for b in ref.bits(todo):
            u, v = self.pairs[b]
            if cov >> b & 1:
                self.bad(path, f"edge {u, v} is covered but still listed")
            if not (verts >> u & verts >> v & 1):
                self.bad(path, f"edge {u, v} is uncovered but a vertex of it is gone")
            if not get_idx or not hasattr(g, "common_neighbors"):
                continue
            e = int(get_idx((u, v)))
            cn = (adj[u] | 1 << u) & (adj[v] | 1 << v) & verts
            got = ref.rows_to_masks([g.common_neighbors[e]])[0]
            if got != cn:
                self.bad(path, f"common neighbours of {u, v} are {sorted(ref.bits(got))}, should be "
                               f"{sorted(ref.bits(cn))}")
            cnt = sum(1 for a, c in ref.edges(adj) if cn >> a & 1 and cn >> c & 1)
            if hasattr(g, "nbrhood_edge_counts") and int(g.nbrhood_edge_counts[e]) != cnt:
                self.bad(path, f"edge count of the neighbourhood of {u, v} is "
                               f"{g.nbrhood_edge_counts[e]}, should be {cnt}")
        # any completion expands to a cover of the original graph
        rows = self.cover(g) + self.rest(todo, verts)
        mat = np.array([[x >> v & 1 for v in range(n)] for x in rows], int)
        ok, full = self.r.call(g.reconstruct_cover, mat.copy(), _case=one(adj, self.branches),
                               _what=f"after {list(path)}: reconstruct_cover")
        if not ok:
            return
        got = ref.rows_to_masks(full)
        iso = [1 << v for v in range(n) if not adj[v]]
        bad = ref.cover_problems(adj, got + iso)
        if bad or len(got) != len(rows):
            self.bad(path, f"expanded cover {[sorted(ref.bits(x)) for x in got]}: {bad or 'row count'}")

    def full(self, path, need):
        """reduzieren with exactly enough, and with one clique too few"""
        for k in (need, need - 1):
            if k < 0:
                continue
            g = self.guard(path, ())
            before = len(self.cover(g))
            ok, _ = self.r.call(g.reduzieren, k, _case=one(self.adj, self.branches),
                                _what=f"after {list(path)}: reduzieren({k})")
            if not ok:
                return
            used = len(self.cover(g)) - before
            if int(g.k_num_cliques) != k - used:
                self.bad(path, f"reduzieren({k}) chose {used} cliques and left {g.k_num_cliques}")
            after = used + len(self.rest(self.todo(g), self.verts(g)))
            if g.k_num_cliques >= 0 and after != need:
                self.bad(path, f"reduzieren({k}) changed the optimum from {need} to {after}")
            if g.k_num_cliques < 0 and k >= need:
                self.bad(path, f"reduzieren({k}) gave up although {need} cliques suffice")
