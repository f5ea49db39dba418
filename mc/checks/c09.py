"""C09: sample.biadj(one_pure_child=True) under every outcome of the random generator."""
import itertools

import numpy as np

import core
import load
import rngs

ID = "C09"
TIMEOUT = 60
CAP = 3000000
ASSUMPTIONS = [
    "the generator is replaced by one whose draws are enumerated; draws from [0,1) only take "
    "the values 0, 0.5 and 1-2^-53",
]


def prepare(tier):
    global sample
    sample = load.full("sample")


def densities(quick=True):
    return (0, 0.2, 0.5, 0.75, 1) if quick else (0, 0.1, 0.2, 0.35, 0.5, 0.6, 0.75, 0.9, 1)


def BOUND(tier):
    m = 6 if tier == "quick" else 7
    return (f"all outcomes of the generator for 1-{m} measurements, every number of latents and "
            f"densities {densities(tier == 'quick')}; for 2-4 measurements also with the number "
            "of latents and/or the density drawn; (measurements, latents) "
            f"{LARGE}: up to {SOME} outcomes with one draw differing from the smallest, and fixed generators"
            + f"; more than 5 measurements only with at most about {30000 if m == 6 else 1500000} outcomes")


def size(m, l, d):
    """how many executions there are about"""
    from math import comb, factorial

    mx = (m - l) * (l - 1)
    k = int(np.round(mx * d))
    return comb(mx, k) * min(l, 3) ** (m - l) * factorial(m)


def cases(tier):
    q = tier == "quick"
    out = []
    for m in range(1, 7 if q else 8):
        for l in range(1, m + 1):
            for d in densities(q):
                if size(m, l, d) <= (30000 if q else 1500000):
                    out.append([m, l, d])
    for m in (2, 3, 4):
        for d in (0.5, None):
            out.append([m, 0, d])
    for m, l in ((3, 2), (4, 2), (4, 3)):
        out.append([m, l, None])
    big = [["large", m, l, d] for m, l in LARGE for d in (0, 0.01, 0.3, 0.5, 0.77, 1)]
    return big + sorted(out, key=lambda c: (size(c[0], c[1] or 2, 0.5 if c[2] is None else c[2])))


LARGE = ((8, 3), (9, 9), (10, 6), (12, 5), (17, 1), (20, 8), (24, 23), (33, 2), (40, 20), (66, 33), (130, 64), (130, 3), (270, 260), (300, 2))
SOME = 400


def large(case, r):
    """single draws that differ from the smallest, and fixed generators"""
    m, l, d = case[1:4]
    kw = {"num_meas": m, "density": d, "num_latent": l}
    n = 0

    def execute(c):
        return r.call(sample.biadj, _case=case, _what="biadj", rng=rngs.ChoiceRng(c, thin=True), **kw)

    for seed in range(4):
        ok, got = r.call(sample.biadj, _case=case, _what="biadj", rng=np.random.default_rng(seed), **kw)
        if not ok or not proper(got, m, l, d, r, case):
            return
    for c, (ok, got) in core.explore(execute, deviations=1, rep=r):
        if not ok or not proper(got, m, l, d, r, case):
            return
        r.state((m, l, np.packbits(np.asarray(got, bool)).tobytes()))
        n += 1
        if n * m > SOME * 40 or n > SOME:
            break
    r.trace(("large", m, l, d))


def proper(got, m, l, d, r, case):
    got = np.asarray(got)
    if got.dtype != bool or got.shape != (l, m):
        return r.fail(f"biadj returned a {got.dtype} array of shape {got.shape}, not {l, m}", case)
    if not got.any(0).all():
        return r.fail(f"measurement {int(np.argmin(got.any(0)))} of {m} has no parent", case)
    pure = got[:, got.sum(0, dtype=int) == 1].any(1)
    if not pure.all():
        return r.fail(f"latent {int(np.argmin(pure))} of {l} has no pure child among {m} measurements", case)
    extra = int(got.sum(dtype=int)) - m
    if abs(extra - d * (m - l) * (l - 1)) > 0.5 + 1e-9:
        return r.fail(f"{extra} edges more than needed, density asks for {d * (m - l) * (l - 1)}: {m} measurements, {l} latents", case)
    return True


def expected(m, l, num):
    """all structures with l latents, m measurements and num edges"""
    full = (1 << l) - 1
    out = set()

    def grow(cols, pure, left):
        todo = m - len(cols)
        if left < todo or todo < l - bin(pure).count("1"):
            return
        if not todo:
            if not left:
                out.add(tuple(cols))
            return
        for c in range(1, full + 1):
            k = bin(c).count("1")
            if k <= left:
                grow(cols + [c], pure | c if k == 1 else pure, left - k)

    grow([], 0, num)
    return out


def run(case, r):
    if case[0] == "large":
        return large(case, r)
    m, l, d = case[:3]
    prefix = case[3] if len(case) > 3 else ()

    def execute(c):
        g = rngs.ChoiceRng(c, thin=True)
        kw = {"num_meas": m, "density": d, "rng": g}
        if l:
            kw["num_latent"] = l
        return r.call(sample.biadj, _case=[m, l, d, list(c.taken)], _what="biadj", **kw), g

    reached, n, opaque = {}, 0, 0
    gen = core.explore(execute, rep=r)
    if prefix:
        c = core.Chooser(prefix)
        gen = [(c, execute(c))]
    for c, ((ok, got), g) in gen:
        if not ok:
            return
        n += 1
        opaque += not g.complete()
        one = [m, l, d, list(c.taken)]
        got = np.asarray(got)
        if got.dtype != bool or got.ndim != 2 or got.shape[1] != m or (l and len(got) != l):
            r.fail(f"biadj returned a {got.dtype} array of shape {got.shape}", one)
            continue
        k = len(got)
        if not 1 <= k <= m:
            r.fail(f"{k} latents for {m} measurements", one)
            continue
        cols = tuple(sum(1 << i for i in range(k) if got[i, j]) for j in range(m))
        if 0 in cols:
            r.fail(f"measurement {cols.index(0)} has no parent: {got.astype(int).tolist()}", one)
        if any(1 << i not in cols for i in range(k)):
            r.fail(f"some latent has no pure child: {got.astype(int).tolist()}", one)
        if d is not None:
            extra = int(got.sum()) - m
            if abs(extra - d * (m - k) * (k - 1)) > 0.5 + 1e-9:
                r.fail(f"{extra} edges more than needed, density asks for "
                       f"{d * (m - k) * (k - 1)}: {got.astype(int).tolist()}", one)
        reached.setdefault((k, int(got.sum())), set()).add(cols)
        r.state((m, k, cols))
        r.trace((m, k, int(got.sum())))
        if n >= CAP:
            r.note(f"capped at {CAP} executions: {case}")
            return
    if prefix or opaque or r.cut:
        return
    for (k, num), have in reached.items():
        if not l and k == m:
            continue
        miss = expected(m, k, num) - have
        if miss:
            r.fail(f"{len(miss)} structures are never drawn, e.g. (parents of each measurement) "
                   f"{sorted(miss)[0]}", [m, l, d])
    if d is None and l:
        mx = (m - l) * (l - 1)
        have = {num - m for k, num in reached}
        if not {0, mx} <= have:
            r.fail(f"without a density, {sorted(have)} of up to {mx} additional edges are drawn", [m, l, d])
    if not l:
        ks = {k for k, _ in reached}
        if not ks >= set(range(1, m)):
            r.fail(f"numbers of latents drawn: {sorted(ks)}", [m, l, d])
    r.sample({"measurements": m, "latents": l, "density": d, "executions": n,
              "structures": sum(map(len, reached.values()))})
