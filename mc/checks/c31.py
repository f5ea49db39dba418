"""C31: fitting without a structure recovers the one-pure-child model behind the data."""
import itertools

import numpy as np

import load
import ref
from checks import _gauss as G
from checks import c08

ID = "C31"
TIMEOUT = 300
TOL = 2e-3
ASSUMPTIONS = [
    "datasets have exactly the covariance of the model (independent measurements are exactly "
    "uncorrelated) and enough observations for every other pair to pass the BIC threshold by a factor of 1.3",
    "weights are chosen so that no two measurements sharing a latent are uncorrelated",
]


def prepare(tier):
    global models, ecc, indep
    models, ecc, indep = load.full("models", "ecc_algorithms", "independence_testing")


def BOUND(tier):
    n = 5 if tier == "quick" else 6
    return (f"all one-pure-child structures on 1-{n} measurements and every {7 if n == 5 else 3}th on {n + 1}, up to the order of "
            f"latents, x 4 assignments of weights and variances x given datasets as they are, shifted, permuted, "
            f"column-major; patterned structures on 6-16 measurements; chosen method and level of the deep model: "
            "all p-value matrices over 3 values for 2-3 measurements x 4 levels, and the distance covariance test")


def cases(tier):
    n = 5 if tier == "quick" else 6
    out = [["all", m, l, 0, 1] for m in range(1, 4) for l in range(1, m + 1)]
    out += [["all", m, l, k, 8] for m in range(4, n + 1) for l in range(1, m + 1) for k in range(8)]
    out += [["some", n + 1, l, k, 8] for l in range(1, n + 2) for k in range(8)]
    out += [["big", p, l, x, v] for p in range(6) for l in (2, 3, 5, 8)
            for x in (4, 8) for v in range(2)]
    out += [["deep", n, k] for n in (2, 3) for k in range(4)]
    return out


def run(case, r):
    if case[0] == "deep":
        return deep(case, r)
    if case[0] == "big":
        cols = c08.big(*case[1:4])
        return recover(cols, case[2], case[4], r, case)
    if case[0] == "one":
        return recover(tuple(case[1]), case[2], case[3], r, case)
    kind, m, l, k, step = case
    every = (7 if m == 6 else 3) if kind == "some" else 1
    for i, cols in enumerate(itertools.islice(c08.structures(m, l, 0), k * every, None, step * every)):
        for v in range(4) if kind == "all" else (i % 4,):
            recover(cols, l, v, r, ["one", list(cols), l, v])


def weights(s, v):
    """weights of all signs without cancellation: distinct magnitudes"""
    for attempt in range(20):
        w = np.zeros(s.shape)
        k = int(s.sum())
        w[s] = [(1 + 0.37 * ((i * (v + 2) + attempt) % 5)) * (-1 if v and (i * i + v) % 3 == 0 else 1)
                for i in range(k)]
        var = (np.full(s.shape[1], 0.5), 0.25 + 0.5 * np.arange(s.shape[1]) % 2,
               np.full(s.shape[1], 2.0), np.full(s.shape[1], 1.0))[v]
        cov = w.T @ w + np.diag(var)
        c = np.abs(cov / np.sqrt(np.outer(cov.diagonal(), cov.diagonal())))
        dep = s.T.astype(int) @ s > 0
        np.fill_diagonal(dep, False)
        if not dep.any() or c[dep].min() > 0.05:
            return w, var, cov, c, dep
    return None


def enough(c, dep, m):
    n = 16
    while n <= m:
        n *= 2
    while dep.any() and n * np.log(1 - np.minimum(c[dep].min(), 0.999) ** 2) + 1.3 * np.log(n) >= 0:
        n *= 2
    return n


def recover(cols, l, v, r, case):
    m = len(cols)
    s = np.array([[c >> i & 1 for c in cols] for i in range(l)], bool)
    chosen = weights(s, v)
    if chosen is None:
        r.note("no weights without cancellation")
        return
    w, var, cov, c, dep = chosen
    n = enough(c, dep, m)
    x = G.dataset(cov, np.arange(m) * (v % 2), n)
    perm = np.roll(np.arange(m)[::-1], v)
    for how in ("as is", "shifted and scaled", "permuted", "column-major"):
        y, t, want = x, cov, s
        if how == "shifted and scaled":
            scale = np.array([(-1) ** i * (1 + 0.5 * (i % 3)) for i in range(m)])
            y, t = x * scale + 10, cov * np.outer(scale, scale)
        elif how == "permuted":
            y, t, want = x[:, perm], cov[np.ix_(perm, perm)], s[:, perm]
        elif how == "column-major":
            y = np.asfortranarray(x)
        if m > 5 and how not in ("as is", "permuted"):
            continue
        given = y.copy()
        g = models.GaussianMCM()
        what = f"{n} observations, {how}"
        ok, _ = r.call(g.fit, y, _case=case, _what=f"fit ({what})")
        if not ok:
            return
        if not np.array_equal(given, y):
            r.fail(f"the dataset was changed ({what})", case)
        rows = ref.rows_to_masks(g.biadj)
        true = ref.rows_to_masks(want)
        if sorted(rows) != sorted(true):
            r.fail(f"structure {[sorted(ref.bits(q)) for q in rows]} fitted to data of "
                   f"{[sorted(ref.bits(q)) for q in true]} ({what})", case)
            return
        d = want.T.astype(int) @ want > 0
        np.fill_diagonal(d, False)
        if not np.array_equal(np.asarray(g.udg).astype(bool), d):
            r.fail(f"graph {np.asarray(g.udg).astype(int).tolist()} estimated, should be "
                   f"{d.astype(int).tolist()} ({what})", case)
        p = g.parameters
        got = np.asarray(p.biadj_weights)
        got = got.T @ got + np.diag(p.error_variances)
        if not np.abs(got - t).max() <= TOL * max(1, np.abs(t).max()):
            r.fail(f"fitted covariance {got.round(4).tolist()}, true one {t.round(4).tolist()} ({what})", case)
        if not np.allclose(p.error_means, y.mean(0), atol=1e-9):
            r.fail(f"error means {p.error_means}, column means {y.mean(0)} ({what})", case)
        r.step()
    r.state((cols, v))
    r.trace((m, l))
    if m > 3 and l > 2:
        r.sample({"structure": s.astype(int).tolist(), "weights": w.round(2).tolist(), "observations": n})


def deep(case, r):
    """the structure step of the deep model"""
    _, n, part = case
    import os
    import tempfile

    with tempfile.TemporaryDirectory() as tmp:
        ok, d = r.call(models.NeuroCausalFactorAnalysis, path=os.path.join(tmp, "out"),
                       _case=case, _what="constructor")
        if not ok:
            return
    if not hasattr(d, "_compute_biadj"):
        r.note("the deep model has no structure step")
        return
    rng = np.random.default_rng(1)
    x = rng.standard_normal((40, n)) @ np.array([[1, 0.6, 0.1], [0, 1, 0.5], [0, 0, 1]])[:n, :n]
    pairs = ref.pairs(n)
    for i, vals in enumerate(itertools.product((0.001, 0.03, 0.2), repeat=len(pairs))):
        if i % 4 != part:
            continue
        p = np.ones((n, n))
        for (a, b), q in zip(pairs, vals):
            p[a, b] = p[b, a] = q
        for alpha in (0.0005, 0.01, 0.05, 0.5):
            for method in (p, "dcov_fast"):
                d.dataset = x + 0
                d.biadj, d.udg = np.array([]), np.array([])
                d.hyperparams["method"], d.hyperparams["alpha"] = method, alpha
                ok, _ = r.call(d._compute_biadj, _case=case, _what=f"structure at level {alpha}")
                if not ok:
                    return
                if method is p:
                    want = p < alpha
                    np.fill_diagonal(want, False)
                else:
                    want = indep.estimate_UDG(x, "dcov_fast", alpha)[0]
                if not np.array_equal(d.udg, want):
                    r.fail(f"graph {np.asarray(d.udg).astype(int).tolist()} at level {alpha}, should be "
                           f"{want.astype(int).tolist()}", case)
                if sorted(ref.rows_to_masks(d.biadj)) != sorted(
                        ref.rows_to_masks(ecc.find_heuristic_1pc(want))):
                    r.fail(f"structure {np.asarray(d.biadj).astype(int).tolist()} for graph "
                           f"{want.astype(int).tolist()}", case)
                # a graph that was given is used
                d.biadj, d.udg = np.array([]), ~want & ~np.eye(n, dtype=bool)
                given = d.udg.copy()
                ok, _ = r.call(d._compute_biadj, _case=case, _what="structure of a given graph")
                if ok and not (np.array_equal(d.udg, given) and sorted(ref.rows_to_masks(d.biadj))
                               == sorted(ref.rows_to_masks(ecc.find_heuristic_1pc(given)))):
                    r.fail(f"the given graph {given.astype(int).tolist()} was not used", case)
                r.state(("deep", n, vals, alpha, isinstance(method, str)))
                r.trace(("deep", n, len(d.biadj)))
