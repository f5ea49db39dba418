"""C13: GaussianMCM.fit on datasets with exactly prescribed sample covariances."""
import itertools

import numpy as np

import load
import ref
from checks import _gauss as G

ID = "C13"
TIMEOUT = 300
TOL = 2e-3
VALUES = (1.0, -1.0, 0.5, 2.0)
ASSUMPTIONS = [
    "reproduction is required for structures that are minimum edge clique covers of the graphs "
    "they generate (the ones learning returns); accuracy 0.002 relative to the largest variance",
]


def prepare(tier):
    global models, ecc
    models, ecc = load.full("models", "ecc_algorithms")


def BOUND(tier):
    q = tier == "quick"
    return (f"all minimal structures on 1-4 measurements{'' if q else ' and 5 (4 weight assignments each)'}, each with "
            f"{24 if q else 120} of the weight assignments from {VALUES} (all, if fewer), 3 patterns of "
            "error variances, 2 of means; given as structure or as graph; Heywood cases for one-factor "
            "models; all 3x2 datasets over {0, 1, 3} with every structure on 2 measurements; larger structures: "
            f"{', '.join(LARGE)}; up to {TALL[-1]} sorted observations; structures stored as booleans, integers, bytes; datasets row-major, column-major and "
            "read-only, strided")


def cases(tier):
    q = tier == "quick"
    out = []
    for m in (1, 2, 3, 4):
        for rows in G.minimal(m, 4):
            for part in range(2 if q else 8):
                out.append(["fit", m, list(rows), part, 12 if q else 15])
    if not q:
        out += [["fit", 5, list(rows), 0, 4] for rows in G.minimal(5, 6)]
    out += [["udg", n, k] for n in (2, 3, 4) for k in range(4)]
    out += [["large", name, k] for name in LARGE for k in range(4)]
    out += [["tall", name, n] for name in ("one factor, 6", "chain, 6") for n in TALL]
    out += [["heywood", a] for a in range(27)]
    out += [["tiny", k] for k in range(27)]
    return out


def run(case, r):
    globals()["do_" + case[0]](case, r)


def fit(rows, m, x, r, case, what, k=0):
    s = G.matrix(rows, m)
    given = s.astype((bool, int, bool, np.uint8)[k % 4])
    if k % 3 == 1:
        x = np.asfortranarray(x)
        x.flags.writeable = False
    elif k % 3 == 2:
        x = np.repeat(x, 2, 1)[:, ::2]
    what += f", structure stored as {given.dtype}"
    g = models.GaussianMCM(biadj=given)
    before = x.copy()
    ok, _ = r.call(g.fit, x, _case=case, _what=f"fit ({what})")
    if not ok:
        return None
    if not np.array_equal(x, before):
        r.fail(f"fit changed the dataset ({what})", case)
    if not np.array_equal(given, s) or not np.array_equal(g.biadj, s):
        r.fail(f"fit changed the given structure ({what})", case)
    basics(g, s, x, r, case, what)
    return g


def basics(g, s, x, r, case, what):
    p = g.parameters
    w, var = np.asarray(p.biadj_weights), np.asarray(p.error_variances)
    if w.shape != s.shape or var.shape != (s.shape[1],):
        r.fail(f"shapes of the parameters: {w.shape}, {var.shape} ({what})", case)
    if (w[~s] != 0).any():
        r.fail(f"weights off the structure: {w.tolist()} ({what})", case)
    if not (var >= 0).all():
        r.fail(f"error variances {var.tolist()} ({what})", case)
    if not np.allclose(p.error_means, x.mean(0), atol=1e-9):
        r.fail(f"error means {p.error_means}, column means {x.mean(0)} ({what})", case)


def reproduces(g, cov, r, case, what):
    p = g.parameters
    w = np.asarray(p.biadj_weights)
    got = w.T @ w + np.diag(p.error_variances)
    err = np.abs(got - cov).max()
    if not err <= TOL * max(1, np.abs(cov).max()):
        r.fail(f"fitted covariance {got.round(4).tolist()}, sample covariance "
               f"{np.round(cov, 4).tolist()} ({what})", case)
    return err


def variances(m):
    return (np.full(m, 1.0), np.full(m, 0.25), 0.5 + np.arange(m) * 0.75)


def do_fit(case, r):
    _, m, rows, part, k = case
    s = G.matrix(rows, m)
    e = int(s.sum())
    total = len(VALUES) ** e
    n = (2 if k == 12 else 8 if k == 15 else 1) * k
    step = max(1, total // n)
    for i, w in enumerate(itertools.islice(itertools.product(VALUES, repeat=e), part * step,
                                           min(total, (part + k * (n // k)) * step), (n // k) * step)):
        wm = np.zeros(s.shape)
        wm[s] = w
        var = variances(m)[(i + part) % 3]
        mean = np.arange(m) * ((i % 2) * 3.0) - i % 2
        cov = wm.T @ wm + np.diag(var)
        x = G.dataset(cov, mean)
        what = f"weights {list(w)}, variances {var.tolist()}"
        g = fit(rows, m, x, r, case, what, i + part)
        if g is None:
            return
        err = reproduces(g, cov, r, case, what)
        r.state((tuple(rows), w, i))
        r.trace(("fit", m, len(rows)))
    if m > 2 and len(rows) > 1:
        r.sample({"structure": s.astype(int).tolist(), "weights": list(w),
                  "largest error": float(err)})


LARGE = {
    "one factor, 6": (6, [range(6)]), "one factor, 10": (10, [range(10)]), "one factor, 17": (17, [range(17)]),
    "chain, 6": (6, [(0, 1, 2), (2, 3, 4), (4, 5)]), "chain, 9": (9, [(0, 1, 2, 3), (3, 4, 5, 6), (6, 7, 8)]),
    "blocks, 8": (8, [(0, 1, 2), (3, 4, 5, 6), (7,)]), "singles, 12": (12, [(i,) for i in range(12)]),
    "hub, 7": (7, [(0, 1, 2), (0, 3, 4), (0, 5, 6)]), "pairs, 20": (20, [(2 * i, 2 * i + 1) for i in range(10)]),
    "overlap, 8": (8, [range(5), range(3, 8)]),
}


def do_large(case, r):
    _, name, k = case
    m, sets = LARGE[name]
    rows = [sum(1 << v for v in q) for q in sets]
    s = G.matrix(rows, m)
    wm = np.zeros(s.shape)
    wm[s] = [VALUES[(i * (k + 1) + i // 3) % 4] if k else 1.0 for i in range(int(s.sum()))]
    var = variances(m)[k % 3]
    cov = wm.T @ wm + np.diag(var)
    x = G.dataset(cov, np.arange(m) * 1.5, (32, 128, 64, 256)[k])
    g = fit(rows, m, x, r, case, f"{name}, weights {wm[s].tolist()}", k)
    if g is not None:
        reproduces(g, cov, r, case, f"{name}, weights {wm[s].tolist()}")
        r.state(("large", name, k))
        r.trace(("large", name))


TALL = (1024, 4096, 16384, 65536)


def do_tall(case, r):
    """rows in order of the first measurement: no part of them is like the whole"""
    _, name, n = case
    m, sets = LARGE[name]
    rows = [sum(1 << v for v in q) for q in sets]
    s = G.matrix(rows, m)
    wm = s * np.where(np.add.outer(np.arange(len(s)), np.arange(m)) % 3, 1.0, -0.5)
    cov = wm.T @ wm + np.diag(0.5 + np.arange(m) * 0.25)
    x = G.dataset(cov, np.arange(m) * 1.5, n)
    x = x[np.argsort(x[:, 0], kind="stable")]
    g = fit(rows, m, x, r, case, f"{name}, {n} observations")
    if g is not None:
        reproduces(g, cov, r, case, f"{name}, {n} observations")
        r.state(("tall", name, n))
        r.trace(("tall", n))


def do_udg(case, r):
    """a dependence graph given, the structure is to be derived from it"""
    _, n, part = case
    for mask in range(part, 2 ** (n * (n - 1) // 2), 4):
        adj = ref.from_mask(n, mask)
        want = ref.rows_to_masks(ecc.find_heuristic_1pc(ref.matrix(adj, bool, 0)))
        udg = ref.matrix(adj, (bool, int)[mask // 4 % 2], 0)
        given = udg.copy()
        cov = np.eye(n) * 1.5 + 0.5
        g = models.GaussianMCM(udg=given)
        x = G.dataset(cov, np.zeros(n))
        ok, _ = r.call(g.fit, x, _case=case, _what=f"fit with graph {ref.edges(adj)}")
        if not ok:
            return
        if not np.array_equal(given, udg) or not np.array_equal(g.udg, udg):
            r.fail(f"the given graph {ref.edges(adj)} was changed", case)
        got = ref.rows_to_masks(g.biadj)
        if sorted(got) != sorted(want):
            r.fail(f"structure {got} learned from graph {ref.edges(adj)}, should be {want}", case)
        basics(g, np.asarray(g.biadj), x, r, case, f"graph {ref.edges(adj)}")
        r.state(("udg", adj))
        r.trace(("udg", len(got)))


def do_heywood(case, r):
    """one factor, three measurements: covariances that only a negative variance explains"""
    vals = (0.9, 0.5, -0.7)
    a, b, c = vals[case[1] % 3], vals[case[1] // 3 % 3], vals[case[1] // 9]
    cov = np.array([[1, a, b], [a, 1, c], [b, c, 1.0]])
    for extra in (0.0, 0.2):
        e = np.linalg.eigvalsh(cov).min()
        x = G.dataset(cov + np.eye(3) * (extra + max(0, -e)), np.zeros(3))
        for rows in ([7], [3, 6], [3, 5, 6], [1, 6]):
            g = fit(rows, 3, x, r, case, f"covariances {a, b, c}")
            if g is None:
                return
            r.state(("heywood", case[1], extra, tuple(rows)))
            r.trace(("heywood", bool((np.asarray(g.parameters.error_variances) < 1e-6).any())))


def do_tiny(case, r):
    k = case[1]
    col = [(0, 1, 3)[k // 3 ** i % 3] for i in range(3)]
    for other in itertools.product((0, 1, 3), repeat=3):
        x = np.array([col, other], float).T
        for rows in ([3], [1, 2]):
            g = fit(rows, 2, x, r, case, f"dataset {x.tolist()}, structure {rows}")
            if g is None:
                return
            cov = np.cov(x, rowvar=False)
            if rows == [3] or abs(cov[0, 1]) < 1e-12:
                # two measurements: any covariance matrix is expressible by one factor
                reproduces(g, cov, r, case, f"dataset {x.tolist()}")
            r.state(("tiny", tuple(col), other, tuple(rows)))
            r.trace(("tiny", rows))
