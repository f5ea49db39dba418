"""C21: permutation distances on all pairs of small weight matrices, against brute force."""
import itertools

import numpy as np

import load

ID = "C21"
TIMEOUT = 60
ALPHA = (0.0, 1.0, -2.0, 0.5)
INTS = (0, 1, -2, 3)
SCALES = (1e-4, 3e5, 1e-2)
STORAGE = (float, int, np.float32, np.int8)


def prepare(tier):
    global ev
    ev = load.light("evaluate")


def sizes(tier):
    # measurements, predicted, true, number of values
    s = [(1, 1, 1, 4), (1, 2, 1, 4), (1, 2, 2, 4), (1, 3, 1, 4), (1, 3, 2, 4), (1, 3, 3, 4),
         (2, 1, 1, 4), (2, 2, 1, 4), (2, 2, 2, 3), (2, 3, 1, 3), (2, 3, 2, 2), (3, 2, 2, 2), (1, 4, 3, 3),
         (3, 3, 1, 2)]
    if tier != "quick":
        s += [(2, 2, 2, 4), (2, 3, 2, 3), (2, 3, 3, 3), (3, 3, 2, 2), (1, 4, 4, 4), (1, 5, 2, 3)]
    return s


def BOUND(tier):
    return ("all pairs of matrices with (measurements, predicted latents, true latents, number of values) in "
            f"{sizes(tier)}, values the first of {ALPHA} or, stored as integers, of {INTS}; storage of the two "
            "arguments cycling through all combinations of double and single precision, integers and 8-bit integers; one in four also multiplied by one of {SCALES}; both variants; all orders of 5 and 6 and "
            f"{'some of 7 and 8' if tier == 'quick' else 'of 7, and some of 8 and 9,'} given latents, with and without the last one")


def cases(tier):
    out = []
    for m, a, b, v in sizes(tier):
        t = v ** (m * a)
        step = max(1, t // 24)
        out += [[m, a, b, v, lo, min(lo + step, t)] for lo in range(0, t, step)]
    out += [["perm", n, i, 8] for n in (5, 6) for i in range(8)] + [["move", n, i] for n in (7,) for i in range(n)]
    out += [["move", 8, i] for i in (0, 4, 7)]
    if tier != "quick":
        out += [["perm", 7, i, 40] for i in range(40)] + [["move", 8, i] for i in (1, 2, 3, 5, 6)] + [["move", 9, 0]]
    return out


def rows(n):
    return np.array([[2.0 * i - n, (-1.0) ** i * (i + 1) / 2] for i in range(n)])


def assign(P, T, absolute):
    """the minimum over orderings, by dynamic programming over sets of predicted latents"""
    n = len(P)
    Z = np.zeros((n, P.shape[1]))
    Z[: len(T)] = T
    if absolute:
        P, Z = np.abs(P), np.abs(Z)
    c = ((P[:, None] - Z[None]) ** 2).sum(2).tolist()
    best = [0.0] + [float("inf")] * (2**n - 1)
    for s in range(2**n):
        i = bin(s).count("1")
        for j in range(n):
            if not s >> j & 1:
                best[s | 1 << j] = min(best[s | 1 << j], best[s] + c[j][i])
    return best[-1]


def permuted(case, r):
    """distance to a reordering (and change of sign) of the same latents"""
    n = case[1]
    if case[0] == "perm":
        perms = list(itertools.permutations(range(n)))[case[2]::case[3]]
    else:
        rest = [i for i in range(n) if i != case[2]]
        perms = [rest[:j] + [case[2]] + rest[j:] for j in range(n)] + [rest[::-1] + [case[2]]]
    T = rows(n)
    for k, q in enumerate(perms):
        for f in (ev.min_perm_squared_l2_dist, ev.min_perm_squared_l2_dist_abs)[k % 2:k % 2 + 1 if n > 5 else None]:
            P = T[list(q)] * (1 if f is ev.min_perm_squared_l2_dist else -1)
            t = T[: n - (k % 3 == 2)]  # sometimes the last latent has no counterpart
            least = assign(P, t, "abs" in f.__name__)
            ok, got = r.call(f, P, t, _case=case, _what=f"{f.__name__} of {n} permuted latents")
            if not ok:
                return
            perm, d = [int(x) for x in got[0]], float(got[1])
            if abs(d - least) > 1e-9 or sorted(perm) != list(range(n)) or abs(
                    cost(P, t, perm, "abs" in f.__name__) - least) > 1e-9:
                r.fail(f"{f.__name__}: distance {d} (ordering {perm}) to the same latents in the order {list(q)}, "
                       f"should be {least}", case)
            r.state((n, tuple(q), f.__name__))
            r.trace((n, least))


def run(case, r):
    if case[0] in ("perm", "move"):
        return permuted(case, r)
    m, a, b, v, lo, hi = case
    k = lo
    for p in itertools.islice(itertools.product(range(v), repeat=m * a), lo, hi):
        for t in itertools.product(range(v), repeat=m * b):
            k += 1
            ip, iT = k % 4, (k // 4 + k) % 4
            P = np.array([(INTS if ip % 2 else ALPHA)[i] for i in p], STORAGE[ip]).reshape(a, m)
            T = np.array([(INTS if iT % 2 else ALPHA)[i] for i in t], STORAGE[iT]).reshape(b, m)
            check(P, T, k, r, case)
            if ip == 0:
                f = SCALES[k // 4 % len(SCALES)]
                check(P * f, T.astype(float) * f, k, r, case, f)
    r.sample({"predicted": P.tolist(), "true": T.tolist()})


def cost(P, T, perm, absolute):
    s = 0.0
    for i, pi in enumerate(perm):
        for j in range(P.shape[1]):
            x = float(P[pi, j])
            y = float(T[i, j]) if i < len(T) else 0.0
            s += (abs(x) - abs(y)) ** 2 if absolute else (x - y) ** 2
    return s


def check(P, T, k, r, case, scale=1.0):
    tol = 1e-9 * scale ** 2
    for absolute in (False, True):
        f = ev.min_perm_squared_l2_dist_abs if absolute else ev.min_perm_squared_l2_dist
        name = f.__name__
        p0, t0 = P.copy(), T.copy()
        ok, got = r.call(f, P, T, _case=case, _what=f"{name}({P.tolist()}, {T.tolist()})")
        if not ok:
            return
        try:
            perm, d = [int(x) for x in got[0]], float(got[1])
        except Exception:
            return r.fail(f"{name} returned {got!r}", case)
        best = min(cost(P, T, q, absolute) for q in itertools.permutations(range(len(P))))
        what = f"{name}({P.tolist()} {P.dtype}, {T.tolist()} {T.dtype})"
        if not abs(d - best) <= tol:
            r.fail(f"{what} is {d}, the minimum is {best}", case)
        if sorted(perm) != list(range(len(P))) or abs(cost(P, T, perm, absolute) - best) > tol:
            r.fail(f"{what}: the ordering {perm} doesn't attain {best}", case)
        if not (np.array_equal(P, p0) and np.array_equal(T, t0)):
            r.fail(f"{what} changed its arguments", case)
        r.trace((absolute, round(best / scale ** 2, 3)))
    r.state((P.tobytes(), T.tobytes(), P.shape, T.shape, P.dtype.str, T.dtype.str))
