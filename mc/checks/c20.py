"""C20: sfd on all pairs of small structures, against counting."""
import itertools

import numpy as np

import load

ID = "C20"
TIMEOUT = 60
DT = (bool, int, np.uint8, np.int8, float, np.float32)


def prepare(tier):
    global ev
    ev = load.light("evaluate")


def sizes(tier):
    # (measurements, latents predicted, latents true)
    out = [(m, a, b) for m in (1, 2, 3) for a in (1, 2, 3) for b in (1, 2, 3) if m * (a + b) <= 12]
    out += [(4, 1, 1), (4, 1, 2), (4, 2, 1)] + ([(4, 2, 2), (5, 1, 2), (5, 2, 1), (3, 3, 3), (3, 3, 2), (3, 2, 3)]
                                                if tier != "quick" else [(5, 1, 1)])
    return sorted(set(out))


def BOUND(tier):
    return ("all pairs of 0/1 matrices with (measurements, predicted latents, true latents) in "
            f"{sizes(tier)}, boolean, integer, 8-bit, floating-point in all combinations (cycling), plus swapped arguments and "
            "reordered latents; up to 300 latents and 130 measurements by pattern")


def cases(tier):
    out = []
    for m, a, b in sizes(tier):
        t = 2 ** (m * a)
        step = max(1, t // 32)
        out += [[m, a, b, lo, min(lo + step, t)] for lo in range(0, t, step)]
    return out + [["many", i, j] for i in range(6) for j in range(6)] + [
        ["wide", m, k] for m in (10, 33, 65, 130) for k in range(6)]


def many(case, r):
    """structures with many latents, all shared by the same measurements"""
    i, j = case[1:]
    for a in (4, 11, 12, 16, 63, 127, 128, 181, 256, 300):
        for b in (1, 11, 12, 128, 256):
            p = [[1, 1, x % 2] for x in range(a)]
            t = [[1, (x + 1) % 2, 0] for x in range(b)]
            f, h = want(p, t, 3)
            P, T = np.array(p, DT[i]), np.array(t, DT[j])
            ok, got = r.call(ev.sfd, P, T, _case=case, _what=f"sfd with {a} and {b} latents")
            if not ok:
                return
            if tuple(map(float, got)) != (f, h):
                r.fail(f"sfd with {a} and {b} latents ({P.dtype}, {T.dtype}) is {got}, should be {f, h}", case)
            r.state(("many", a, b, i, j))
            r.trace((f, h))


def wide(case, r):
    """many measurements"""
    _, m, k = case
    for a, b in ((1, 1), (3, 3), (5, 2), (m // 2, m), (0, 3), (3, 0)):
        p = [[int((x * 7 + y * (3 + k)) % 5 < 2) for y in range(m)] for x in range(a)]
        t = [[int(y // 2 == x or (x + y + k) % 7 == 0) for y in range(m)] for x in range(b)]
        P, T = np.array(p, DT[k]).reshape(a, m), np.array(t, DT[(k + a) % 6]).reshape(b, m)
        for A, B, x, y in ((P, T, p, t), (T, P, t, p), (P, P[::-1], p, p)):
            f, h = want(x, y, m)
            ok, got = r.call(ev.sfd, A, B, _case=case, _what=f"sfd with {m} measurements")
            if not ok:
                return
            if tuple(map(float, got)) != (f, h):
                r.fail(f"sfd with {m} measurements, {len(A)} and {len(B)} latents ({A.dtype}, {B.dtype}) is "
                       f"{got}, should be {f, h}", case)
        r.state(("wide", m, a, b, k))
        r.trace((f, h))


def mat(mask, l, m):
    return [[mask >> (i * m + j) & 1 for j in range(m)] for i in range(l)]


def want(p, t, m):
    sp = [[sum(r[i] * r[j] for r in p) for j in range(m)] for i in range(m)]
    st = [[sum(r[i] * r[j] for r in t) for j in range(m)] for i in range(m)]
    h = sum((sp[i][j] > 0) != (st[i][j] > 0) for i in range(m) for j in range(i + 1, m))
    f = sum((sp[i][j] - st[i][j]) ** 2 for i in range(m) for j in range(m))
    return f, h


def run(case, r):
    if case[0] == "many":
        return many(case, r)
    if case[0] == "wide":
        return wide(case, r)
    m, a, b, lo, hi = case
    k = 0
    for x in range(lo, hi):
        p = mat(x, a, m)
        for y in range(2 ** (m * b)):
            t = mat(y, b, m)
            f, h = want(p, t, m)
            k += 1
            P, T = np.array(p, DT[k % 2 if k % 5 else k % 6]), np.array(t, DT[(k // 2) % (2 if k % 3 else 6)])
            variants = [("", P, T)]
            if k % 4 == 0:
                variants.append((" (arguments swapped)", T, P))
            if k % 4 == 1:
                variants.append((" (latents reordered)", P[::-1], np.roll(T, 1, axis=0)))
            for name, A, B in variants:
                a0, b0 = A.copy(), B.copy()
                ok, got = r.call(ev.sfd, A, B, _case=case, _what=f"sfd({p}, {t}){name}")
                if not ok:
                    return
                try:
                    gf, gh = got
                    gf, gh = float(gf), float(gh)
                except Exception:
                    return r.fail(f"sfd returned {got!r}", case)
                if gf != f or gh != h:
                    r.fail(f"sfd({p}, {t}){name} of {A.dtype}, {B.dtype} is {gf, gh}, should be {f, h}", case)
                if not (np.array_equal(A, a0) and np.array_equal(B, b0) and A.dtype == a0.dtype):
                    r.fail(f"sfd changed its arguments {p}, {t}", case)
            r.state((m, a, b, x, y))
            r.trace((f, h))
    r.sample({"predicted": p, "true": t, "sfd": [f, h]})
