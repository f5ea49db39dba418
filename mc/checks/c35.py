"""C35: every interleaving of the operations of two objects; each must do what it does alone."""
import itertools
import os
import shutil
import warnings

import numpy as np

import load
import ref

ID = "C35"
TIMEOUT = 120
ASSUMPTIONS = [
    "objects that draw are given generators of their own; deep models have directories of their own",
    "what an object does alone, in a process that did nothing before, is the reference",
]


def prepare(tier):
    global models, graph, sample, torch
    models, graph, sample = load.full("models", "graph", "sample")
    import torch


_g = np.random.default_rng(11)
X = [np.round(_g.standard_normal((9, 3)), 2) for _ in range(2)]
X[0][:, 1] += 2 * X[0][:, 0]
X[1][:, 2] -= 3 * X[1][:, 0]
B = np.array([[1, 1, 0], [0, 1, 1]], bool)
U = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]], bool)
ADJ = [ref.matrix(ref.from_mask(4, k)) for k in (0b101101, 0b111110, 0b001011)]


def plain(v):
    if isinstance(v, np.ndarray):
        return v.shape, v.tolist()
    if isinstance(v, torch.Tensor):
        return plain(v.detach().numpy())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


class Gaussian:
    """constructed in one of several ways; fits and samples"""

    def __init__(self, how, seed, shared):
        kw = ({}, {"biadj": shared["B"]}, {"udg": shared["U"]})[how]
        self.o = models.GaussianMCM(rng=np.random.default_rng(seed), **kw)

    def op(self, k, shared):
        if k == "s":
            return plain(self.o.sample(2))
        self.o.fit(shared["X"][int(k)])

    def look(self):
        p = self.o.parameters
        return plain({"biadj": self.o.biadj, "udg": self.o.udg, "weights": p.biadj_weights,
                      "means": p.error_means, "variances": p.error_variances})


class Drawn(Gaussian):
    """drawn at random"""

    def __init__(self, how, seed, shared):
        kw = ({"num_meas": 3}, {"biadj": shared["B"]}, {"num_meas": 3, "num_latent": 2})[how]
        self.o = sample.mcm(rng=np.random.default_rng(seed), **kw)


class Penalised:
    def __init__(self, how, seed, shared):
        self.o = models.DevMedil(rng=np.random.default_rng(seed), one_pure_child=how != 1)
        self.cols = 2
        if how == 2:
            self.o.init_W = np.full((2, 2), 0.75)

    def op(self, k, shared):
        if k == "s":
            return plain(self.o.sample(2, "mle"))
        if k == "l":
            return plain(self.o.sample(2, "lse"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.o.fit(shared["X"][int(k)][:, :self.cols], ("mle", "lse")[int(k)], 0.1, 0.2)

    def look(self):
        return plain({k: v for k, v in vars(self.o).items() if k.startswith(("W_hat", "D_hat", "convergence", "init_W"))})


class Deep:
    def __init__(self, how, seed, shared):
        self.path = os.path.abspath(f"deep{os.getpid()}_{next(shared['n'])}") + "/"
        shutil.rmtree(self.path, ignore_errors=True)
        self.o = models.NeuroCausalFactorAnalysis(seed=seed, path=self.path, **({}, {"dof": 3}, {"biadj": shared["B"]})[how])
        self.how = how

    def op(self, k, shared):
        if k == "h":  # its own settings
            self.o.hyperparams.update(num_epochs=1 + self.how, batch_size=2, lr=0.01 * (1 + self.how))
            return None
        if k == "e":  # what it does now
            vae = self.o.parameters.vae
            vae.eval()
            with torch.no_grad():
                return plain(list(vae(torch.as_tensor(shared["X"][0], dtype=torch.float32))))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.o.fit(shared["X"][int(k)])

    def look(self):
        return plain({"loss": self.o.loss, "biadj": self.o.biadj, "weights": self.o.parameters.weights,
                      "settings": {k: str(v) for k, v in self.o.hyperparams.items()},
                      "net": dict(self.o.parameters.vae.state_dict())})

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


class Graph:
    def __init__(self, how, seed, shared):
        self.o = graph.UndirectedDependenceGraph(ADJ[how].copy())

    def op(self, k, shared):
        g = self.o
        if k == "a":
            g.add_edges(np.array([[0, 3]]))
        elif k == "r":
            g.rm_edges(np.array([[0, 1], [2, 3]]))
        elif k == "m":
            g.make_aux()
        elif k == "c":
            if g.num_edges == 0:
                return None
            c = g.reducible_copy()
            c.reduzieren(3)
            return plain([c.adj_matrix, c.num_edges, c.k_num_cliques, c.the_cover])

    def look(self):
        g = self.o
        return plain([g.adj_matrix, g.num_edges, g.num_vertices] + (
            [g.common_neighbors, g.nbrhood_edge_counts] if hasattr(g, "common_neighbors") else []))


KINDS = {"gaussian": (Gaussian, ("0s1", "10s", "s")), "drawn": (Drawn, ("s0s", "ss", "1s")),
         "penalised": (Penalised, ("0s", "1l", "01s")), "deep": (Deep, ("h0", "h1e", "h01")),
         "graph": (Graph, ("amc", "mcr", "rmac"))}
MORE = {"gaussian": ("0s1s", "100s"), "drawn": ("s0s1", "sss"), "penalised": ("01sl",), "deep": ("h0e1",),
        "graph": ("amrmc", "mcamc")}


def scripts(kind, tier):
    return [s for s in KINDS[kind][1] + (MORE[kind] if tier != "quick" else ())
            if not (kind == "gaussian" and s[0] == "s")]


def BOUND(tier):
    return (f"all interleavings of two objects' operations: all pairs of {', '.join(KINDS)} models or graphs, each constructed in "
            f"{'one of' if tier == 'quick' else 'all of'} up to 3 ways with {2 if tier == 'quick' else 3}-{'4 operations' if tier == 'quick' else '5 operations'} each, sharing datasets and given structures")


def cases(tier):
    out = []
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        for s in scripts(a, tier):
            for t in scripts(b, tier):
                slow = tier == "quick" and "graph" not in (a, b)
                for how in (len(out) % 3,) if slow else range(3):
                    out.append([a, b, s, t, how, (how + 1) % 3])
                    if a == b:
                        out.append([a, b, s, t, how, how])
    return out


def merges(a, b):
    """all orders of a's and b's operations"""
    n = len(a) + len(b)
    for pos in itertools.combinations(range(n), len(a)):
        out = [1] * n
        for p in pos:
            out[p] = 0
        yield out


def shared():
    return {"X": [x.copy() for x in X], "B": B.copy(), "U": U.copy(), "n": itertools.count()}


def perform(sides, order, mode):
    """sides: (kind, how, script); construct is each one's first operation"""
    sh = shared()
    objs, pos, seen = [None, None], [0, 0], [[], []]
    try:
        for s in order:
            kind, how, script = sides[s]
            if objs[s] is None:
                objs[s] = KINDS[kind][0](how, 3 + how, sh)
                seen[s].append(("new", None))
            else:
                k = script[pos[s]]
                pos[s] += 1
                seen[s].append((k, objs[s].op(k, sh)))
            seen[s].append(objs[s].look())
        for s in (0, 1):
            if objs[s] is not None:  # also after the other's last operation
                seen[s].append(objs[s].look())
    finally:
        for o in objs:
            if hasattr(o, "close"):
                o.close()
    return seen, sh


def same(a, b):
    """to rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-5 * max(1, abs(a))
    return a == b


_alone = {}


def alone(side, r, case):
    """in a process of its own"""
    from checks import c33

    if side not in _alone:
        def go():
            return perform((side, None), [0] * (1 + len(side[2])), 0)[0][0]

        ok, got = r.call(c33.forked, go, _case=case, _what=f"{side} alone")
        if not ok:
            return None
        _alone[side] = got
    return _alone[side]


def run(case, r):
    a, b, s, t, i, j = case
    sides = ((a, i, s), (b, j, t))
    want = [alone(x, r, case) for x in sides]
    if None in want:
        return
    for order in merges("n" + s, "n" + t):
        text = "".join("AB"[x] for x in order)
        ok, got = r.call(perform, sides, order, 0, _case=case, _what=f"A: {sides[0]}, B: {sides[1]}, order {text}")
        if not ok:
            return
        seen, sh = got
        for x in (0, 1):
            k = next((k for k, (p, q) in enumerate(zip(seen[x], want[x])) if not same(p, q)), None)
            if k is not None:
                return r.fail(f"A: {sides[0]}, B: {sides[1]}, in order {text}: {'AB'[x]}'s step {k // 2} gives "
                              f"{str(seen[x][k])[:200]}, alone {str(want[x][k])[:200]}", case)
        if not (all(np.array_equal(p, q) for p, q in zip(sh["X"], X)) and np.array_equal(sh["B"], B)
                and np.array_equal(sh["U"], U)):
            return r.fail(f"A: {sides[0]}, B: {sides[1]}, in order {text}: shared data changed", case)
        r.step()
    r.state(tuple(case))
    r.trace((a, b, s, t))
