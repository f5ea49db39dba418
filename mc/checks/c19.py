"""C19: parallel independence testing under every schedule of the worker pool."""
import itertools

import numpy as np

import core
import load
from checks._patch import patched
from checks._pool import FakePool

ID = "C19"
TIMEOUT = 300
ASSUMPTIONS = [
    "the pool is replaced by a model in which tasks start in order on `processes` workers and "
    "finish in any order; the model's results are compared with a real multiprocessing.Pool",
    "worker processes don't die",
]


def prepare(tier):
    global it, mp, tt
    it = load.full("independence_testing", dcor=True)
    import multiprocessing as mp
    from dcor.independence import distance_correlation_t_test as tt

    tt(np.arange(5.0), np.array([1.0, 4, 2, 3, 0]))


def BOUND(tier):
    return (f"all completion orders of the tasks for {'15, 16, 21, 25 and 29' if tier == 'quick' else '15, 16, 21, 25, 29 and 33'} measurements "
            "(2-6 tasks with the present grouping) and 2-4 measurements x processor counts 1, 2, 3, 4, 8, 64, "
            "both tests; runs on real pools for comparison; for 2, 5, 12 and 16 measurements and "
            "four datasets (two of them with ties), every task's result under different states of the worker and "
            "orders of tasks")


def cases(tier):
    out = []
    for method in ("xicor", "dcov_big"):
        for m in (2, 3, 4, 15, 16, 21, 25, 29) + (() if tier == "quick" else (33,)):
            for cpus in (1, 2, 3, 4, 8, 64):
                if method == "dcov_big" and (m > 21 or cpus == 3) and tier == "quick":
                    continue
                out.append(["model", method, m, cpus])
        out += [["real", method, m] for m in (3, 16, 21)]
        out += [["pure", method, m, k] for m in (2, 5, 12, 16) for k in range(4)]
    return out


def data(m, n=7):
    x = np.array([[((i * 37 + j * 11 + i * j * j * 5) % 23) + (i * j % 7) * 0.5 for j in range(m)]
                  for i in range(n)])
    return x + np.arange(n)[:, None] * (np.arange(m) % 3)


_serial = {}


def serial(method, x):
    key = (method, x.shape)
    if key not in _serial:
        m = x.shape[1]
        p = np.zeros((m, m))
        for i, j in itertools.combinations(range(m), 2):
            if method == "xicor":
                p[i, j] = it.xicorr(x[:, i], x[:, j])[1]
            else:
                p[i, j] = tt(x[:, i], x[:, j]).pvalue
            p[j, i] = p[i, j]
        _serial[key] = p
    return _serial[key]


def judge(x, method, got, r, case, what):
    want = serial(method, x)
    m = x.shape[1]
    off = ~np.eye(m, dtype=bool)
    u, p = np.asarray(got[0]), np.asarray(got[1])
    bad = np.argwhere(~((p == want) | (np.isnan(p) & np.isnan(want)) | ~off))
    if len(bad):
        i, j = bad[0]
        return r.fail(f"{what}: p-value of {i, j} is {p[i, j]}, should be {want[i, j]}", case)
    if not (u == ((want < 0.3) & off)).all():
        r.fail(f"{what}: the graph differs from the p-values", case)


def pure(case, r):
    """Results of tasks don't depend on what the worker did before, nor on random state."""
    import random

    _, method, m, k = case
    x = [data(m), data(m, 12) % 3, np.round(data(m, 9)) % 2, data(m, 20) / 7][k]
    runs = []
    for order in range(3):
        class Recorder(FakePool):
            def call(self, func, item, star):
                return func(*item) if star else func(item)

        Recorder.chooser, Recorder.log = None, []
        random.seed(order)
        np.random.seed(order)
        if order == 2:  # after other work in the same process
            for i, j in itertools.combinations(range(m), 2):
                it.xicorr(x[::-1, j], x[:, i])
        cpus = (1, 8, 3)[order]
        with patched(("Pool", Recorder, it, mp), ("cpu_count", lambda: cpus, it, mp)):
            ok, got = r.call(it.estimate_UDG, x, _case=case, _what="estimate_UDG", method=method,
                             significance_level=0.3)
        if not ok:
            return
        runs.append(got)
    np.random.seed(7)
    with patched(("cpu_count", lambda: 4, it, mp)):
        ok, got = r.call(it.estimate_UDG, x, _case=case, _what="estimate_UDG", method=method,
                         significance_level=0.3)
    if not ok:
        return
    runs.append(got)
    for i, (u, p) in enumerate(runs[1:]):
        if not (np.array_equal(u, runs[0][0]) and np.array_equal(p, runs[0][1], equal_nan=True)):
            what = ("another random state", "earlier work in the process", "real worker processes")[i]
            r.fail(f"p-values change with {what} ({m} measurements, dataset {k})", case)
    r.state((method, m, k))
    r.trace(("pure", method, m, k))


def run(case, r):
    kind, method, m = case[:3]
    if kind == "pure":
        return pure(case, r)
    x = data(m)
    if kind == "real":
        ok, got = r.call(it.estimate_UDG, x, _case=case, _what="estimate_UDG", method=method,
                         significance_level=0.3)
        if ok:
            judge(x, method, got, r, case, "real pool")
            r.trace(("real", method, m))
        return
    cpus = case[3]

    def execute(c):
        FakePool.chooser, FakePool.log = c, []
        with patched(("Pool", FakePool, it, mp), ("cpu_count", lambda: cpus, it, mp)):
            return r.call(it.estimate_UDG, x, _case=case[:4] + [list(c.taken)],
                          _what=f"estimate_UDG on {cpus} processors", method=method,
                          significance_level=0.3), tuple(FakePool.log)

    gen = core.explore(execute, rep=r)
    if len(case) > 4:
        c = core.Chooser(case[4])
        gen = [(c, execute(c))]
    n = 0
    for c, ((ok, got), log) in gen:
        if not ok:
            return
        n += 1
        judge(x, method, got, r, case[:4] + [list(c.taken)],
              f"{m} measurements, {cpus} processors, tasks finished in order {log}")
        r.state((method, m, cpus, log))
        r.trace((m, log))
        if n >= 3000:
            r.note(f"capped at 3000 schedules: {case}")
            break
    if n > 1:
        r.sample({"measurements": m, "processors": cpus, "schedules": n, "last": list(log)})
