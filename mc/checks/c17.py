"""C17: xicorr against Chatterjee's formula on all pairs of weak orders."""
import itertools
from functools import lru_cache

import numpy as np

import load

ID = "C17"
TIMEOUT = 60
ASSUMPTIONS = [
    "with ties in x, any order of the tied observations may be used; the p-value must be that of "
    "the coefficient returned", "agreement to 1e-9",
]


def prepare(tier):
    global it
    it = load.full("independence_testing")


def BOUND(tier):
    n = 5 if tier == "quick" else 6
    return (f"all pairs of weak orders (orders with ties) of 1-{n} observations, y not constant, "
            "under eight increasing transformations and ways of storing the values (signed, unsigned, boolean, single precision), with lists and arrays, with and "
            "without the option for ties; constant y; all pairs of different lengths up to 4; empty input; "
            "all permutations y of 7 untied x" + ("" if n == 5 else " and of 8") +
            f"; patterned sequences of lengths {LONG + HUGE}, x untied")


LONG = (9, 15, 16, 17, 24, 33, 64, 65, 100, 128, 129, 257, 1000)
HUGE = (3001, 5000, 12000)


def long_sequences(n, a):
    """untied x; y from monotone to scattered, with few to no ties"""
    for q in sorted({2, 3, 10, n // 2, n - 1, n}):
        for b in (1, 3, 7):
            x = sorted(range(n), key=lambda i: ((i * (2 * a + 1) * 37 + a) % 1009, i))
            yield tuple(x), tuple(_dense([(v * b + a * v * v) % q for v in x]))
    yield tuple(range(n)), tuple(v if a % 2 else n - v for v in range(n))


def _dense(y):
    o = {v: i for i, v in enumerate(sorted(set(y)))}
    return [o[v] for v in y]


def short(v):
    return f"{[getattr(t, 'item', lambda: t)() for t in v[:12]]}{f' ... ({len(v)})' if len(v) > 12 else ''} ({getattr(v, 'dtype', 'list')})"


def weak_orders(n):
    """one representative per weak order: values 0..k-1, all used"""
    return [c for c in itertools.product(range(n), repeat=n) if set(c) == set(range(max(c) + 1))]


def cases(tier):
    n = 5 if tier == "quick" else 6
    out = [["reject"], ["constant"]]
    for k in range(1, n + 1):
        w = len(weak_orders(k))
        step = max(1, w // 64)
        out += [["orders", k, a, min(a + step, w)] for a in range(0, w, step)]
    for k in LONG if n == 5 else LONG + (511, 2000):
        out += [["long", k, a] for a in range(8)]
    out += [["huge", k, a] for k in HUGE for a in range(4)]
    for k in (7,) if n == 5 else (7, 8):
        out += [["perms", k, a] for a in range(k)]
    return out


MAPS = (lambda v: [float(t) for t in v], lambda v: [int(t) - 7 for t in v],
        lambda v: [float(t) ** 3 * 1e-3 + 5 for t in v], lambda v: [2.0 ** (9 * t) for t in v],
        lambda v: np.array(v, np.uint8), lambda v: (np.array(v) - 128).astype(np.int8),
        lambda v: np.repeat(np.array(v, np.float32), 2)[::2],
        lambda v: np.array(v) > 0 if len(set(v)) == 2 else np.array(v, np.uint64))


def stored(v, k):
    return MAPS[k % 8](v) if max(v) < 100 else MAPS[(0, 1, 2, 6)[k % 4]](v)


def cdf(z):
    from math import erfc, sqrt

    return 0.5 * erfc(-z / sqrt(2))


@lru_cache(maxsize=100000)
def parts(y):
    """ranks r and l, denominator, asymptotic variance (ties allowed)"""
    n = len(y)
    rr = [sum(1 for b in y if b <= a) for a in y]
    ll = [sum(1 for b in y if b >= a) for a in y]
    den = 2 * sum(l * (n - l) for l in ll)
    f = sorted(k / n for k in rr)
    # Chatterjee (2021), section 2: the estimate of tau^2 with ties
    u = f
    v, s = [], 0.0
    for i in range(n):
        s += u[i]
        v.append((s + (n - 1 - i) * u[i]) / n)
    a = sum((2 * n - 2 * (i + 1) + 1) * u[i] ** 2 for i in range(n)) / n ** 2
    c = sum((2 * n - 2 * (i + 1) + 1) * u[i] for i in range(n)) / n ** 2
    b = sum(t * t for t in v) / n
    d = sum(l * (n - l) for l in ll) / n ** 3
    return rr, den, (a - 2 * b + c * c) / d ** 2 if d else None


def numerators(x, y):
    """sum |r_(i+1) - r_i| for every way to order observations by x"""
    n = len(x)
    rr = parts(y)[0]
    groups = [[i for i in range(n) if x[i] == v] for v in sorted(set(x))]
    out = set()
    for ps in itertools.product(*[itertools.permutations(g) for g in groups]):
        o = [i for p in ps for i in p]
        out.add(sum(abs(rr[b] - rr[a]) for a, b in zip(o, o[1:])))
    return out


def check(x, y, k, r, case):
    n = len(x)
    fx, fy = stored(x, k + k // 8), stored(y, k)
    if k % 3:
        fx, fy = np.array(fx), np.array(fy)
    ties = k % 5 != 0
    bx, by = list(fx), list(fy)
    ok, got = r.call(it.xicorr, fx, fy, _case=case, _what=f"xicorr({short(x)}, {short(y)})",
                     **({} if ties else {"ties": False}))
    if not ok:
        return
    xi, p = float(got[0]), float(got[1])
    _, den, var = parts(y)
    vals = [1 - n * s / den for s in numerators(x, y)]
    if not any(abs(xi - v) < 1e-9 for v in vals):
        return r.fail(f"xi of {short(fx)} and {short(fy)} is {xi}, should be one of {sorted(vals)}", case)
    if ties:
        if var is not None and var > 1e-12:
            want = 1 - cdf(n ** 0.5 * xi / var ** 0.5)
        else:
            want = None
    else:
        want = 1 - cdf(n ** 0.5 * xi / 0.4 ** 0.5)
    if want is not None and not abs(p - want) < 1e-9:
        r.fail(f"p-value of {short(fx)} and {short(fy)} (ties={ties}) is {p}, should be {want}", case)
    if list(fx) != bx or list(fy) != by:
        r.fail(f"xicorr changed its arguments {bx}, {by}", case)
    r.state((x, y))
    r.trace((n, round(xi, 6)))


def huge(x, y, k, q, r, case):
    """like check, with arrays; x is untied"""
    n = len(y)
    low = np.sort(y)
    rr = np.searchsorted(low, y, "right")
    ll = n - np.searchsorted(low, y, "left")
    den = 2 * float((ll * (n - ll)).sum())
    xi = 1 - n * float(np.abs(np.diff(rr[np.argsort(x)])).sum()) / den
    u = np.sort(rr) / n
    j = np.arange(1, n + 1)
    v = (np.cumsum(u) + (n - j) * u) / n
    a, c, b = ((2 * n - 2 * j + 1) * u ** 2).sum() / n ** 2, ((2 * n - 2 * j + 1) * u).sum() / n ** 2, (v ** 2).mean()
    var = (a - 2 * b + c * c) / (den / 2 / n ** 3) ** 2
    for ties in (True, False):
        fx, fy = (x + 0.5, y.astype(np.int32)) if ties else (x.astype(np.float32), y * 1e-4)
        ok, got = r.call(it.xicorr, fx, fy, _case=case, _what=f"xicorr of {n} observations", **({} if ties else {"ties": False}))
        if not ok:
            return
        p = 1 - cdf(n ** 0.5 * xi / (var ** 0.5 if ties else 0.4 ** 0.5))
        if not (abs(float(got[0]) - xi) < 1e-8 and abs(float(got[1]) - p) < 1e-8):
            return r.fail(f"xicorr of {n} observations ({len(set(y.tolist()))} different y's, ties={ties}) is {tuple(map(float, got))}, "
                          f"should be {xi, p}", case)
        r.state((n, k, q, ties))
        r.trace(("huge", n))


def run(case, r):
    kind = case[0]
    if kind == "orders":
        _, n, a, b = case
        ws = weak_orders(n)
        for i, x in enumerate(ws[a:b]):
            for j, y in enumerate(ws):
                if len(set(y)) > 1:
                    check(x, y, i + 7 * a + j, r, case)
        r.sample({"n": n, "x": list(ws[a]), "y's": len(ws)})
    elif kind == "long":
        _, n, a = case
        for i, (x, y) in enumerate(long_sequences(n, a)):
            if len(set(y)) > 1:
                for k in (0, 9, 18) if n > 100 else (0, 3, 9, 18, 28, 37):
                    check(x, y, k + i % 2 * 40, r, case)
    elif kind == "huge":
        _, n, a = case
        i = np.arange(n)
        x = np.argsort(i * (2 * a + 1) * 7919 % 100003, kind="stable")
        for q in (10, n // 2, 100003):
            y = (x * (1, 3)[a % 2] + (a > 1) * x * x) % q
            huge(x, y, a, q, r, case)
    elif kind == "perms":
        _, n, a = case
        rest = [v for v in range(n) if v != a]
        for i, p in enumerate(itertools.permutations(rest)):
            check(tuple(range(n)), (a,) + p, i, r, case)
    elif kind == "constant":
        for n in range(1, 6):
            for x in weak_orders(n):
                ok, got = r.call(it.xicorr, np.array(x, float), np.full(n, 2.5), _case=case,
                                 _what="xicorr with a constant y")
                if not ok:
                    return
                if got[1] is not None and float(got[1]) < 0.5:
                    r.fail(f"constant y has p-value {got[1]} with x {x}", case)
                r.state(("constant", x))
                r.trace("constant")
    else:
        for a in range(5):
            for b in range(5):
                try:
                    got = it.xicorr(list(range(a)), np.arange(b) * 1.0)
                except ValueError:
                    got = "rejected"
                except Exception as e:
                    got = repr(e)
                if a != b and got != "rejected":
                    r.fail(f"lengths {a} and {b}: {got}", case)
                if a == b == 0 and not (isinstance(got, tuple) and np.isnan(got[0]) and np.isnan(got[1])):
                    r.fail(f"empty input: {got}", case)
                r.state(("reject", a, b))
                r.trace("rejected" if got == "rejected" else "accepted")
