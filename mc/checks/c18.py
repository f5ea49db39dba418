"""C18: estimate_UDG thresholds pairwise tests consistently, for every method and level."""
import itertools

import numpy as np

import load
from checks._patch import patched
from checks._pool import FakePool
from checks.c16 import reference

ID = "C18"
TIMEOUT = 120
LEVELS = (0.0, 0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0)
ASSUMPTIONS = [
    "the pairwise tests themselves are trusted here (xicorr: C17, dcov: C16; the t-test is dcor's)",
    "the process pool is replaced by a serial one (C19 explores schedules)",
    "statistics within 1e-9 of the critical value may go either way",
]


def prepare(tier):
    global it, tt, chi2, mp
    it = load.full("independence_testing", dcor=True)
    from dcor.independence import distance_correlation_t_test as tt
    from scipy.stats import chi2
    import multiprocessing as mp

    tt(np.arange(5.0), np.array([1.0, 4, 2, 3, 0]))  # compile before forking


def pool_columns():
    return [(2, 2, 2, 2, 2, 2), (0, 1, 2, 3, 4, 5), (5, 3, 4, 1, 2, 0), (0, 0, 1, 1, 2, 2), (3, 0, 5, 1, 4, 2),
            (0, 1, 0, 1, 0, 1), (1, 4, 9, 16, 25, 36), (2, 1, 0, 0, 1, 2), (0, 0, 0, 0, 0, 7),
            (1, 2, 2, 0, 2, 1), (9, 1, 8, 2, 7, 3)]


def BOUND(tier):
    k = 9 if tier == "quick" else 11
    return (f"all ordered selections of 2-3 of {k} columns of length 6 (constant, ties, monotone, oscillating, "
            f"outlier), and all selections of 4 of {6 if tier == 'quick' else 8}, x methods dcov_fast, xicor, dcov_big, "
            f"stored in {len(STORAGE)} ways in turn, patterned samples of sizes (observations, columns) {BIG} in each, "
            f"each with given p-values, x levels {LEVELS}")


def cases(tier):
    k = 9 if tier == "quick" else 11
    out = []
    for m in (2, 3):
        out += [[method, m, k, a] for a in range(k) for method in ("dcov_fast", "xicor", "dcov_big")]
    k = 6 if tier == "quick" else 8
    out += [[method, 4, k, a] for a in range(k) for method in ("dcov_fast", "xicor", "dcov_big")]
    out += [["big", method, n, m, storage] for n, m in BIG for storage in STORAGE
            for method in ("dcov_fast", "xicor", "dcov_big") if n < 128 or "8-bit" not in storage]
    return out


_test = {}


def pvalue(method, a, b):
    key = (method, a, b)
    if key not in _test:
        x, y = np.array(a, float), np.array(b, float)
        _test[key] = float(it.xicorr(x, y)[1] if method == "xicor" else tt(x, y).pvalue)
    return _test[key]


def estimate(x, r, case, **kw):
    FakePool.chooser = None
    with patched(("Pool", FakePool, it, mp)):
        return r.call(it.estimate_UDG, x, _case=case, _what=f"estimate_UDG({ {k: v if not isinstance(v, np.ndarray) else 'p-values' for k, v in kw.items()} })", **kw)


def shape_ok(u, m, r, case, what):
    if u.shape != (m, m) or u.dtype != bool:
        r.fail(f"{what}: {u.dtype} graph of shape {u.shape}", case)
        return False
    if u.diagonal().any() or not (u == u.T).all():
        r.fail(f"{what}: graph isn't symmetric with empty diagonal: {u.astype(int).tolist()}", case)
        return False
    return True


BIG = [(16, 7), (12, 16), (40, 5), (65, 4), (130, 3), (300, 3)]
STORAGE = ("float", "int", "8-bit", "unsigned 8-bit", "single precision", "column-major, read-only", "strided")


def stored(x, storage):
    if storage in ("int", "8-bit", "unsigned 8-bit", "single precision"):
        return x.astype({"int": int, "8-bit": np.int8, "unsigned 8-bit": np.uint8}.get(storage, np.float32))
    if storage == "column-major, read-only":
        x = np.asfortranarray(x)
        x.flags.writeable = False
    elif storage == "strided":
        x = np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2]
    return x


def big_columns(n, m):
    """columns without ties (if there are more than 16 observations), some of them related"""
    p = 1009
    cols = []
    for j in range(m):
        v = [(i * (5 + 3 * (j // 2)) + (j % 2) * (i * i % 3)) % p for i in range(n)]
        if n <= 16:
            cols.append(tuple(t % (11 + j) for t in v))
        else:
            o = sorted(range(n), key=lambda i: (v[i], i))
            rank = [0] * n
            for a, i in enumerate(o):
                rank[i] = a
            cols.append(tuple(rank))
    return cols


def run(case, r):
    if case[0] == "big":
        _, method, n, m, storage = case
        use = big_columns(n, m)
        one(np.array(use, float).T, use, method, m, r, case, storage)
        return r.state((method, n, m, storage))
    method, m, k, first = case
    cols = pool_columns()[:k]
    others = [i for i in range(k) if i != first]
    for i, rest in enumerate(itertools.permutations(others, m - 1)):
        use = [cols[first]] + [cols[i] for i in rest]
        x = np.array(use, float).T
        one(x, use, method, m, r, case, STORAGE[i % len(STORAGE)])
        r.state((method, first, rest))
    r.sample({"method": method, "last sample": x.T.tolist()})


def one(x, use, method, m, r, case, storage):
    x = stored(x, storage)
    before = x.copy()
    n = len(x)
    pairs = list(itertools.combinations(range(m), 2))
    last = None
    # dcor's test in single precision
    tol = 1e-4 if storage == "single precision" and method == "dcov_big" else 1e-12
    if method == "dcov_fast":
        cov, tot = reference(np.array(use, np.int64).T)
        bars = tot / n ** 2
        with np.errstate(all="ignore"):
            stat = n * (cov / n ** 6) / np.outer(bars, bars)
    pv = None
    for lv in LEVELS:
        what = f"{method} at level {lv} of columns {[c[:12] for c in use]} ({n} observations, {storage})"
        kw = {"method": method, "significance_level": lv}
        if method == "dcov_fast" and lv == 0.05:
            kw = {}
        ok, got = estimate(x, r, case, **kw)
        if not ok:
            return
        u, p = np.asarray(got[0]), got[1]
        if not shape_ok(u, m, r, case, what):
            return
        if last is not None and (last & ~u).any():
            r.fail(f"raising the level to {lv} removed an edge: {what}", case)
        last = u
        if method == "dcov_fast":
            crit = chi2(1).ppf(1 - lv)
            for i, j in pairs:
                if not bars[i] * bars[j]:
                    if lv < 1 and u[i, j]:
                        r.fail(f"{what}: columns {i, j} joined, one is constant", case)
                    continue
                if abs(stat[i, j] - crit) > 1e-9 and u[i, j] != (stat[i, j] >= crit):
                    r.fail(f"{what}: columns {i, j} {'joined' if u[i, j] else 'not joined'}, "
                           f"statistic {stat[i, j]}, critical value {crit}", case)
        else:
            p = np.asarray(p)
            if p.shape != (m, m):
                return r.fail(f"{what}: p-values of shape {p.shape}", case)
            for i, j in pairs:
                want = pvalue(method, use[i], use[j])
                if not (p[i, j] == p[j, i] or np.isnan(p[i, j]) and np.isnan(p[j, i])):
                    r.fail(f"{what}: p-values of {i, j} and {j, i} differ", case)
                if not (abs(p[i, j] - want) < tol or np.isnan(want) and np.isnan(p[i, j])):
                    r.fail(f"{what}: p-value of {i, j} is {p[i, j]}, should be {want}", case)
                if u[i, j] != (p[i, j] < lv):
                    r.fail(f"{what}: columns {i, j} {'joined' if u[i, j] else 'not joined'}, "
                           f"p-value {want}", case)
            if pv is None:
                pv = p.copy()
            # p-values handed back
            q = pv.copy()
            ok, got = estimate(x, r, case, method=q, significance_level=lv)
            if not ok:
                return
            v = np.asarray(got[0])
            if not shape_ok(v, m, r, case, what + " from p-values"):
                return
            if not (v == u).all():
                r.fail(f"{what}: p-values passed back give another graph", case)
            if not np.array_equal(q, pv, equal_nan=True) or not np.array_equal(got[1], pv, equal_nan=True):
                r.fail(f"{what}: the p-values passed back were changed", case)
        r.trace((method, m, lv, int(u.sum()) // 2))
    if not np.array_equal(x, before):
        r.fail(f"the sample was changed ({method})", case)
