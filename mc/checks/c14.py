"""C14: the dependence graph GaussianMCM.fit estimates, against exact rational arithmetic."""
import itertools
from fractions import Fraction
from functools import lru_cache
from math import log, log1p

import numpy as np

import load
import ref
from checks._gauss import hadamard
from checks._patch import patched

ID = "C14"
TIMEOUT = 300
ASSUMPTIONS = [
    "no measurement is constant (its correlations are undefined)",
    "while the graph is observed, the parameter optimiser (and for more than 6 measurements also "
    "the heuristic search) is replaced by a stand-in, since neither takes part in estimating it",
    "pairs whose criterion is within 1e-9 of zero may go either way",
]
TRANSFORMS = ("as is", "scaled", "sign-flipped", "shifted", "permuted", "rows permuted")


def prepare(tier):
    global models, ecc, optimize
    models, ecc = load.full("models", "ecc_algorithms")
    import scipy.optimize as optimize


def BOUND(tier):
    q = tier == "quick"
    return ("all pairs of non-constant columns of length 2-4 over {0..3}, 5"
            + ("" if q else "-6") + f" over {{0,1,2}}, {8 if q else 10} over {{0,1}}; columns with correlations on a "
            "fine grid around the threshold for 16-1024 observations; all datasets of 2-3 columns of "
            f"length 4 over {{0,1}}{'' if q else ' and of length 5'}, with the structure learned from the graph; each also "
            "scaled, sign-flipped, shifted, and with columns or rows permuted; patterned datasets of "
            f"sizes (observations, measurements) {PATTERN}, stored in {len(STORAGE)} ways")


def cases(tier):
    q = tier == "quick"
    out = [["pairs", n, k, t] for n, k in ((2, 4), (3, 4), (4, 4), (5, 3), (8 if q else 10, 2))
           + (() if q else ((6, 3),)) for t in range(len(TRANSFORMS))]
    out += [["grid", n, t] for n in (16, 64, 256, 1024) for t in range(len(TRANSFORMS))]
    out += [["small", n, m, a] for n in ((4,) if q else (4, 5)) for m in (2, 3) for a in range(14 if n == 4 else 30)]
    out += [["pattern", n, m, k, storage] for n, m in PATTERN for k in range(2 if q else 6) for storage in STORAGE]
    return out


STORAGE = ("int", "8-bit", "unsigned 8-bit", "single precision", "column-major, read-only", "strided", "float")
PATTERN = [(n, m) for n in (5, 10, 33, 50, 100, 127, 129, 257, 500, 999, 1001, 5000) for m in (1, 3, 12)] + [
    (30, 40), (40, 70), (20, 130), (20000, 3), (70000, 2)]


def stored(x, storage):
    if storage == "column-major, read-only":
        x = np.asfortranarray(x, float)
        x.flags.writeable = False
    elif storage == "strided":
        x = np.repeat(np.repeat(x.astype(float), 2, 0), 2, 1)[::2, ::2]
    else:
        x = x.astype({"int": int, "8-bit": np.int8, "unsigned 8-bit": np.uint8, "float": float}.get(
            storage, np.float32))
    return x


def pattern(n, m, k):
    """columns with values 0..120, many pairs of which are weakly related"""
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    common = (i * (31 + 2 * k)) % 61
    own = (i * i * (2 * j + 3) + i * (7 * j + 1) + j * j) % 61
    part = (j * (1 + k) % 5) / 4
    return (part * common + (1 - part) * own + 0.5).astype(int) * np.where(j % 2 == 1, 1, -1) + 60 * (j % 2 == 0)


def columns(n, k):
    return [c for c in itertools.product(range(k), repeat=n) if len(set(c)) > 1]


def criterion(a, b):
    """exact sign of n*log(1-r^2)+log(n): -1 edge, 1 no edge, 0 too close to call"""
    n = len(a)
    sa, sb = sum(a), sum(b)
    sab = n * sum(x * y for x, y in zip(a, b)) - sa * sb
    saa = n * sum(x * x for x in a) - sa * sa
    sbb = n * sum(y * y for y in b) - sb * sb
    return sign(n, saa * sbb - sab * sab, saa * sbb)


@lru_cache(maxsize=None)
def sign(n, num, den):
    # (1 - r^2)^n * n  versus 1
    if num == 0:
        return -1
    f = n * log1p(-(den - num) / den) + log(n)
    if abs(f) > 1e-6 * n:
        return -1 if f < 0 else 1
    f = Fraction(num, den) ** n * n
    if abs(f - 1) < Fraction(1, 10 ** 9):
        return 0
    return -1 if f < 1 else 1


def expected(cols):
    m = len(cols)
    out = np.zeros((m, m), int)
    cols = [list(map(int, c)) for c in cols]
    x = np.array(cols, object).T
    n = len(x)
    xi = np.array(cols, np.int64).T
    s = xi.sum(0)
    cov = n * (xi.T @ xi) - np.outer(s, s)
    v = cov.diagonal()
    for i, j in itertools.combinations(range(m), 2):
        d = int(v[i]) * int(v[j])
        c = int(cov[i, j])
        out[i, j] = out[j, i] = sign(n, d - c * c, d)
    return out


def transform(x, t):
    """returns the transformed dataset and the order of its columns"""
    m = x.shape[1]
    o = np.arange(m)
    if t == "scaled":
        x = x * np.array([0.001, 1.0, 2500.0, 7.25])[o % 4]
    elif t == "sign-flipped":
        x = x * np.where(o % 3 == 1, -1.0, 1.0)
    elif t == "shifted":
        x = x + (o * 37 % 101) - 50.0
    elif t == "permuted":
        o = np.argsort((o * 7 + 3) % 1009 % max(m, 2), kind="stable")[::-1]
        x = x[:, o]
    elif t == "rows permuted":
        x = np.roll(x[::-1], 1, axis=0)
    return np.ascontiguousarray(x), o


class Result:
    def __init__(self, x):
        self.x, self.success, self.message, self.fun = x, True, "", 0.0


def estimate(x, r, case, stub_search):
    g = models.GaussianMCM()
    entries = [("minimize", lambda f, x0, *a, **k: Result(np.asarray(x0)), models, optimize)]
    if stub_search:
        entries.append(("find_heuristic_1pc", lambda u: np.eye(len(u), dtype=bool), models, ecc))
    with patched(*entries):
        ok, _ = r.call(g.fit, x, _case=case, _what="fit")
    return g if ok else None


def compare(g, x, want, o, t, r, case):
    u = np.asarray(g.udg)
    m = x.shape[1]
    if u.shape != (m, m):
        return r.fail(f"dependence graph of shape {u.shape} ({t})", case)
    u = u.astype(bool)
    if u.diagonal().any() or not (u == u.T).all():
        r.fail(f"dependence graph isn't symmetric with empty diagonal ({t})", case)
    w = want[o][:, o]
    bad = np.argwhere(((w < 0) & ~u) | ((w > 0) & u))
    if len(bad):
        i, j = bad[0]
        r.fail(f"{t}: columns {x[:, i].tolist()[:12]} and {x[:, j].tolist()[:12]} are "
               f"{'joined' if u[i, j] else 'not joined'}, n*log(1-r^2)+log(n) is "
               f"{'negative' if w[i, j] < 0 else 'positive'}", case)
    r.transitions += m * (m - 1) // 2


def run(case, r):
    kind = case[0]
    if kind == "pairs":
        _, n, k, t = case
        cols = columns(n, k)
        # in chunks, every pair of chunks together
        size = 400
        chunks = [cols[i:i + size] for i in range(0, len(cols), size)]
        for a, b in itertools.combinations_with_replacement(range(len(chunks)), 2):
            use = chunks[a] if a == b else chunks[a] + chunks[b]
            do(use, t, r, case)
    elif kind == "grid":
        _, n, t = case
        h = hadamard(n)
        need = np.sqrt(1 - n ** (-1.0 / n))
        cols = [h[:, 1].astype(int) * 1000]
        for d in range(-12, 13):
            a = int(round(1000 * need)) + d * (1 if n > 100 else 4)
            # correlation a / sqrt(a^2 + b^2) with b = sqrt(10^6 - a^2) rounded
            b = int(round(np.sqrt(10 ** 6 - a * a)))
            cols.append((a * h[:, 1] + b * h[:, 2 + d % 3]).astype(int))
        do([c.tolist() for c in cols], t, r, case)
    elif kind == "pattern":
        _, n, m, k, storage = case
        x = stored(pattern(n, m, k), storage)
        want = expected(pattern(n, m, k).T)
        before = x.copy()
        g = estimate(x, r, case, m > 6)
        if g is not None:
            compare(g, x, want, np.arange(m), storage, r, case)
            if not np.array_equal(x, before):
                r.fail(f"fit changed the dataset ({storage})", case)
            r.state(("pattern", n, m, k, storage))
            r.trace(("pattern", n, m, int((want < 0).sum()) // 2))
    else:
        _, n, m, first = case
        cs = columns(n, 2)
        for rest in itertools.product(cs, repeat=m - 1):
            cols = (cs[first],) + rest
            want = expected(cols)
            for t in range(len(TRANSFORMS)):
                x, o = transform(np.array(cols, float).T, TRANSFORMS[t])
                before = x.copy()
                g = estimate(x, r, case, False)
                if g is None:
                    return
                compare(g, x, want, o, TRANSFORMS[t], r, case)
                if not np.array_equal(x, before):
                    r.fail("fit changed the dataset", case)
                s = sorted(ref.rows_to_masks(g.biadj))
                ws = sorted(ref.rows_to_masks(ecc.find_heuristic_1pc(np.asarray(g.udg))))
                if s != ws:
                    r.fail(f"structure {s} learned from graph {np.asarray(g.udg).tolist()}", case)
                r.state((cols, t))
                r.trace(("small", m, int((want < 0).sum()) // 2, len(s)))


def do(cols, t, r, case):
    want = expected(cols)
    x, o = transform(np.array(cols, float).T, TRANSFORMS[t])
    g = estimate(x, r, case, len(cols) > 6)
    if g is None:
        return
    compare(g, x, want, o, TRANSFORMS[t], r, case)
    for c in cols:
        r.state((tuple(c), t))
    r.trace((case[0], len(cols[0]), TRANSFORMS[t]))
    r.sample({"observations": len(cols[0]), "columns": len(cols), "transform": TRANSFORMS[t],
              "edges": int((want < 0).sum()) // 2})
