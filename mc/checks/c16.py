"""C16: dcov against the definition in exact integer arithmetic, on all small samples."""
import itertools

import numpy as np

import load

ID = "C16"
TIMEOUT = 120
TRANSFORMS = ("as is", "scaled", "shifted", "rows permuted", "sign-flipped", "columns permuted", "integers",
              "8-bit unsigned", "8-bit signed", "single precision", "column-major, read-only", "strided")
BIG = [(n, m) for n in (10, 16, 31, 33, 64, 65, 100, 129, 257, 500) for m in (2, 5)] + [
    (12, 17), (12, 40), (20, 70), (9, 130), (1025, 2), (1500, 2), (2050, 2)]
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest entry"]


def prepare(tier):
    global it
    it = load.full("independence_testing")


def spaces(tier):
    q = tier == "quick"
    return ((2, (0, 1, 3, 7)), (3, (0, 1, 3, 7)), (4, (0, 1, 3)), (5, (0, 1, 3) if not q else (0, 2)),
            (6, (0, 1)), (7 if q else 9, (0, 1)))


def BOUND(tier):
    return ("all pairs of columns of length and values " +
            ", ".join(f"{n} over {v}" for n, v in spaces(tier)) +
            "; all samples of 1-3 columns of length 2-3 over {0,1,3}; each also scaled per column, "
            "shifted, sign-flipped, and with rows or columns permuted, and stored in other ways (integers, single "
            "precision, column-major, read-only, strided); patterned samples of sizes (observations, "
            f"columns) {BIG}")


def cases(tier):
    out = [["pairs", n, list(v), t] for n, v in spaces(tier) for t in range(len(TRANSFORMS))]
    out += [["small", n, m, t] for n in (2, 3) for m in (1, 2, 3) if (n, m) != (3, 3)
            for t in range(len(TRANSFORMS))]
    out += [["big", n, m, a, t] for i, (n, m) in enumerate(BIG) for a in range(3)
            for t in range(len(TRANSFORMS)) if (t + i + a) % (2 if tier == "quick" else 1) == 0]
    if tier != "quick":
        out += [["small", 3, 3, t] for t in range(len(TRANSFORMS))]
    return out


def reference(x):
    """(n^6 * squared distance covariances, n^2 * mean distances), exact"""
    n, m = x.shape
    if n > 9:
        a = np.abs(x.T[:, :, None] - x.T[:, None, :]).astype(float)
        c = (a - a.mean(1)[:, None] - a.mean(2)[:, :, None] + a.mean((1, 2))[:, None, None]).reshape(m, -1)
        return c @ c.T * float(n) ** 4, a.sum((1, 2))
    a = np.abs(x.T[:, :, None] - x.T[:, None, :])  # m, n, n
    row = a.sum(2)
    tot = row.sum(1)
    c = (n * n * a - n * row[:, :, None] - n * row[:, None, :] + tot[:, None, None]).reshape(m, -1)
    return c @ c.T, tot


def patterned(n, m, a):
    """columns related in different ways, values 0..100, one of them constant"""
    i = np.arange(n)[:, None]
    j = np.arange(m)[None, :]
    base = (i * (7 + 4 * a)) % 101
    x = np.where(j % 5 == 0, base, np.where(j % 5 == 1, (base * base + j) % 101, np.where(
        j % 5 == 2, i * (j + 3) % 89, np.where(j % 5 == 3, 100 - base // (1 + j // 5), i % 2 * 50))))
    if m > 5:
        x[:, m // 2] = 42
    return x


def run(case, r):
    if case[0] == "pairs":
        _, n, vals, t = case
        cols = list(itertools.product(vals, repeat=n))
        step = 300
        chunks = [cols[i:i + step] for i in range(0, len(cols), step)]
        for a, b in itertools.combinations_with_replacement(range(len(chunks)), 2):
            check(np.array(chunks[a] if a == b else chunks[a] + chunks[b]).T, TRANSFORMS[t], r, case)
    elif case[0] == "big":
        _, n, m, a, t = case
        check(patterned(n, m, a), TRANSFORMS[t], r, case)
    else:
        _, n, m, t = case
        for cols in itertools.product(itertools.product((0, 1, 3), repeat=n), repeat=m):
            check(np.array(cols).T, TRANSFORMS[t], r, case)


def check(x, t, r, case):
    n, m = x.shape
    cov, tot = reference(x.astype(np.int64))
    want, bars = cov / n ** 6, tot / n ** 2
    y = x.astype(float)
    o = np.arange(m)
    if t == "scaled":
        s = np.array([0.5, 1, 12.0, 3.0, 100.0])[o % 5]
        y, want, bars = y * s, want * np.outer(s, s), bars * s
    elif t == "shifted":
        y = y + (o * 7 % 13 - 6.0) * 3
    elif t == "rows permuted":
        y = np.roll(y[::-1], 1, axis=0)
    elif t == "sign-flipped":
        y = y * np.where(o % 2, -1.0, 1.0)
    elif t == "columns permuted":
        o = o[::-1]
        y, want, bars = y[:, o], want[o][:, o], bars[o]
    elif t == "integers":
        y = x.copy()
    elif t.startswith("8-bit"):
        y = x.astype(np.int8 if "un" not in t else np.uint8)
    elif t == "single precision":
        y = x.astype(np.float32)
    y = np.ascontiguousarray(y)
    if t.startswith("column-major"):
        y = np.asfortranarray(y)
        y.flags.writeable = False
    elif t == "strided":
        y = np.repeat(np.repeat(y, 2, 0), 2, 1)[::2, ::2]
    before = y.copy()
    ok, got = r.call(it.dcov, y, _case=case, _what=f"dcov ({t})")
    if not ok:
        return
    c, d = np.asarray(got[0]), np.asarray(got[1])
    if c.shape != (m, m) or d.shape != (m,):
        return r.fail(f"shapes {c.shape}, {d.shape} for {m} columns ({t})", case)
    tol = 1e-9 * (1 + np.abs(want).max())
    bad = np.argwhere(~(np.abs(c - want) <= tol))
    if len(bad):
        i, j = bad[0]
        r.fail(f"{t}: dcov of {y[:12, i].tolist()} and {y[:12, j].tolist()} ({n} observations) is {c[i, j]}, "
               f"should be {want[i, j]}", case)
    bad = np.flatnonzero(~(np.abs(d - bars) <= 1e-9 * (1 + np.abs(bars).max())))
    if len(bad):
        r.fail(f"{t}: mean distance of {y[:12, bad[0]].tolist()} is {d[bad[0]]}, should be "
               f"{bars[bad[0]]}", case)
    if not np.array_equal(y, before):
        r.fail(f"dcov changed the sample ({t})", case)
    r.transitions += m * m
    for k in range(m):
        r.state((n, tuple(y[:, k].tolist()), t))
    r.trace((n, m, t))
    if m > 50:
        r.sample({"observations": n, "columns": m, "transform": t, "pairs": m * (m + 1) // 2})
