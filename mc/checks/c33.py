"""C33: every sequence of calls of an analysis function, with the results of earlier calls
overwritten and arrays reused: each answer must be the one a first call gives."""
import itertools
import multiprocessing
import os
import pickle
import random

import numpy as np

import load
import ref
from checks._patch import patched
from checks._pool import FakePool

ID = "C33"
TIMEOUT = 60
ASSUMPTIONS = [
    "a function's answer to a first call, made in a process of its own, is the reference",
    "p-values passed to estimate_UDG and handed back by it are not overwritten",
]


def prepare(tier):
    global ecc, indep, evaluate, sample, models, visualize
    ecc, indep, evaluate, sample, models, visualize = load.full(
        "ecc_algorithms", "independence_testing", "evaluate", "sample", "models", "visualize")


class Pool(FakePool):
    def call(self, func, x, star):
        return func(*x) if star else func(x)


GRAPHS = [ref.matrix(ref.from_mask(5, k)) for k in (0b1011010111, 0b1111011010, 0b0000100001)]
GRAPHS.append(ref.matrix(ref.from_mask(4, 0b101101)))
BIADJ = [np.array(b, bool) for b in (
    [[1, 1, 0, 0], [0, 1, 1, 1]], [[1, 0, 1, 0], [0, 1, 0, 1]], [[1, 1, 1, 1], [0, 0, 1, 1]],
    [[1, 1, 0], [0, 1, 1], [1, 0, 1]])]
_r = np.random.default_rng(3)
DATA = [np.round(_r.standard_normal((8, 3)), 2) for _ in range(3)]
DATA[1][:, 2] = DATA[1][:, 0] + 0.1 * DATA[1][:, 1]
DATA.append(np.round(_r.standard_normal((6, 4)), 2))
PVALS = [np.array([[1, a, b], [a, 1, c], [b, c, 1]]) for a, b, c in (
    (0.01, 0.2, 0.6), (0.3, 0.04, 0.001), (0.06, 0.07, 0.5))]
PVALS.append(np.array([[1, 0.01], [0.01, 1]]))
WEIGHTS = [np.round(_r.standard_normal((3, 4)), 2) for _ in range(5)] + [np.round(_r.standard_normal((2, 3)), 2)] * 2


# of equal sums, degrees or bytes as others
TWINS = [np.eye(6, dtype=int) for _ in range(2)]
for _m, _e in zip(TWINS, (((0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)), ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)))):
    for _a, _b in _e:
        _m[_a, _b] = _m[_b, _a] = 1
GRAPHS += TWINS + [TWINS[1][[0, 2, 1, 3, 4, 5]][:, [0, 2, 1, 3, 4, 5]]]
BIADJ += [BIADJ[0].reshape(4, 2), BIADJ[0][::-1].copy(), BIADJ[0][:, ::-1].copy()]
DATA += [DATA[0].reshape(4, 6), DATA[0][:, ::-1].copy(), np.asfortranarray(DATA[0][::-1])]
PVALS += [PVALS[0][::-1, ::-1].copy(), PVALS[0].astype(np.float32), 1 - PVALS[0]]
MORE = [(WEIGHTS[0].reshape(4, 3), WEIGHTS[1].reshape(4, 3)), (WEIGHTS[0][::-1].copy(), WEIGHTS[1]),
        (WEIGHTS[0], -WEIGHTS[1])]


def cliques(g):
    return sorted(tuple(sorted(int(v) for v in q)) for q in ecc.max_cliques(g))


def interleaved(g):
    """two enumerations at a time"""
    other = ecc.max_cliques(GRAPHS[1].copy())
    out = []
    for q in ecc.max_cliques(g):
        out.append(tuple(sorted(int(v) for v in q)))
        next(other, None)
        q.append(-1)
    return sorted(out)


def fitted(x):
    g = models.GaussianMCM(rng=np.random.default_rng(2))
    g.fit(x)
    p = g.parameters
    return g.biadj, g.udg, p.biadj_weights, p.error_means, p.error_variances, g.sample(2)


def drawn(b):
    g = sample.mcm(rng=np.random.default_rng(int(b.sum())), biadj=b)
    p = g.parameters
    return p.biadj_weights, p.error_means, p.error_variances, g.sample(2)


def structures(b):
    return sample.biadj(4, 0.5, rng=np.random.default_rng(int(b.sum()))), sample.biadj(
        4, 0.5, one_pure_child=False, rng=np.random.default_rng(int(b.sum())))


def pooled(method):
    def f(x):
        with patched(("Pool", Pool, indep, multiprocessing)):
            return indep.estimate_UDG(x, method, 0.1)
    return f


FUNCTIONS = {
    "find_clique_min_cover": (lambda g: ecc.find_clique_min_cover(g), [(g,) for g in GRAPHS]),
    "find_heuristic_1pc": (lambda g: ecc.find_heuristic_1pc(g), [(g,) for g in GRAPHS]),
    "max_cliques": (cliques, [(g,) for g in GRAPHS]),
    "max_cliques, interleaved": (interleaved, [(g,) for g in GRAPHS]),
    "add_isolated_verts": (lambda b: ecc.add_isolated_verts(b), [(b,) for b in BIADJ]),
    "dcov": (lambda x: indep.dcov(x), [(x,) for x in DATA]),
    "estimate_UDG dcov_fast": (lambda x: indep.estimate_UDG(x, "dcov_fast", 0.1), [(x,) for x in DATA]),
    "estimate_UDG p-values": (lambda p: indep.estimate_UDG(p, p, 0.05)[0], [(p,) for p in PVALS]),
    "estimate_UDG xicor": (pooled("xicor"), [(x,) for x in DATA]),
    "xicorr": (lambda x: tuple(indep.xicorr(x[:, 0], x[:, 1])), [(x,) for x in DATA]),
    "sfd": (lambda a, b: evaluate.sfd(a, b), [(BIADJ[i], BIADJ[j]) for i, j in ((0, 1), (1, 0), (2, 1), (3, 3), (4, 4), (5, 0), (6, 1))]),
    "recover_ug": (lambda b: evaluate.recover_ug(b), [(b,) for b in BIADJ]),
    "min_perm_squared_l2_dist": (lambda a, b: evaluate.min_perm_squared_l2_dist(a, b),
                                 [(WEIGHTS[i], WEIGHTS[i + 1]) for i in (0, 1, 2)] + [(WEIGHTS[5], WEIGHTS[6])] + MORE),
    "min_perm_squared_l2_dist_abs": (lambda a, b: evaluate.min_perm_squared_l2_dist_abs(a, b),
                                     [(WEIGHTS[i], WEIGHTS[i + 1]) for i in (0, 1, 2)] + [(WEIGHTS[5], WEIGHTS[6])] + MORE),
    "get_dag_from_biadj": (lambda b: visualize.get_dag_from_biadj(b), [(b,) for b in BIADJ]),
    "GaussianMCM": (fitted, [(x,) for x in DATA]),
    "sample.mcm": (drawn, [(b,) for b in BIADJ]),
    "sample.biadj": (structures, [(b,) for b in BIADJ]),
}


def BOUND(tier):
    n = 3 if tier == "quick" else 4
    return (f"{len(FUNCTIONS)} functions, each with all sequences of up to {n} calls with {4 if n == 3 else '4-7'} inputs (of two calls: "
            "7; some of one shape, of equal sums or of equal bytes) x {arrays of their own, one array reused} x {results left alone, overwritten}, and all pairs "
            "of functions called in turn")


def cases(tier):
    n = 3 if tier == "quick" else 4
    names = list(FUNCTIONS)
    out = [["one", f, k, s] for f in names for k in range(2, n + 1) for s in range(4)]
    return out + [["two", f, g] for f in names for g in names if f != g]


def flat(x):
    """an answer, comparable"""
    if isinstance(x, (tuple, list)):
        return tuple(flat(y) for y in x)
    if isinstance(x, np.ndarray):
        return (x.dtype.kind, x.shape, tuple(x.ravel().tolist()))
    return x.item() if isinstance(x, np.generic) else x


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def scribble(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = True if x.dtype == bool else 7


def random_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:], random.getstate()


def first(name, r, case):
    """answers to first calls"""
    key = name
    if key not in _first:
        f, inputs = FUNCTIONS[name]
        out = []
        for i, args in enumerate(inputs):
            ok, got = r.call(alone, f, args, _case=case, _what=f"{name} of input {i}")
            if not ok:
                return None
            out.append(got)
        _first[key] = out
    return _first[key]


_first = {}


def alone(f, args):
    """in a process of its own"""
    return forked(lambda: flat(f(*[a.copy() for a in args])))


def forked(fn):
    """what it gives in a process of its own, that did nothing before but fork"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = pickle.dumps((True, fn()))
        except BaseException as e:
            res = pickle.dumps((False, repr(e)))
        with os.fdopen(wr, "wb") as h:
            h.write(res)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        ok, got = pickle.load(h)
    os.waitpid(pid, 0)
    if not ok:
        raise RuntimeError(got)
    return got


def go(name, i, reuse, overwrite, store, r, case, what, kept=None):
    f, inputs = FUNCTIONS[name]
    args = []
    for k, a in enumerate(inputs[i]):
        if reuse:
            b = store.setdefault((k, a.shape, a.dtype.str), a.copy())
            b[...] = a
            args.append(b)
        else:
            args.append(a.copy())
    want = first(name, r, case)
    if want is None:
        return False
    np.random.seed(i), random.seed(i)
    before = random_state()
    ok, got = r.call(f, *args, _case=case, _what=what)
    if not ok:
        return False
    if random_state() != before:
        r.fail(f"{what}: the state of the global random generators was changed", case)
        return False
    seen = flat(got)
    if not same(seen, want[i]):
        r.fail(f"{what}: {seen}, a first call gives {want[i]}", case)
        return False
    for a, b in zip(inputs[i], args):
        if not np.array_equal(a, b):
            r.fail(f"{what}: the argument was changed", case)
            return False
    if kept is not None and not overwrite:
        kept.append((got, seen))
    if overwrite:
        scribble(got)
        for a, b in zip(inputs[i], args):
            if not np.array_equal(a, b):
                r.fail(f"{what}: overwriting the result changes the argument", case)
                return False
    return True


def run(case, r):
    if case[0] == "one":
        _, name, length, mode = case
        count = len(FUNCTIONS[name][1]) if length == 2 else 4
        for seq in itertools.product(range(count), repeat=length):
            store, kept = {}, []
            for k, i in enumerate(seq):
                what = (f"{name} of inputs {list(seq[:k + 1])}" + ", in one array" * (mode & 1)
                        + ", results overwritten" * (mode >> 1))
                if not go(name, i, mode & 1, mode >> 1, store, r, case, what, kept):
                    return
            for k, (got, seen) in enumerate(kept):
                if not same(flat(got), seen):
                    return r.fail(f"{what}: the result of call {k} became {flat(got)}, it was {seen}", case)
            r.state((name, seq, mode))
            r.trace((name, length))
        return
    _, f, g = case
    for i, j in itertools.product(range(4), repeat=2):
        store = {}
        for name, k in ((f, i), (g, j), (f, i), (g, (j + 1) % 4)):
            if not go(name, k, True, True, store, r, case, f"{name} of input {k}, in turn with {f} of {i} and {g} of {j}"):
                return
        r.state((f, g, i, j))
        r.trace("two")
