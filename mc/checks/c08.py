"""C08: every one-pure-child structure is recovered by both searches."""
import itertools

import numpy as np

import load
import ref

ID = "C08"
TIMEOUT = 60


def prepare(tier):
    global ecc
    ecc = load.light("ecc_algorithms")


def BOUND(tier):
    n = 6 if tier == "quick" else 7
    return (f"all one-pure-child structures on 1-{n} measurements, up to the order of latents; on "
            f"{n + 1} measurements, those with the pure children first, and with them last in "
            "reverse order; large ones on 3-103 measurements by pattern, up to 11 stars; bool and int graphs, unit and zero diagonal")


def structures(n, l, pure_first):
    """boolean structures as tuples of column sets (bitmask of latents), latent i's first
    pure child ordered before latent j's for i < j"""
    cols = range(1, 1 << l)
    if pure_first:
        for rest in itertools.product(cols, repeat=n - l):
            base = tuple(1 << i for i in range(l)) + rest
            yield base
            yield tuple(reversed(base))
        return

    def grow(c, seen):
        if n - len(c) < l - seen:
            return
        if len(c) == n:
            yield tuple(c)
            return
        for x in cols:
            if x & (x - 1) == 0:  # a pure child
                i = x.bit_length() - 1
                if i <= seen:
                    yield from grow(c + [x], max(seen, i + 1))
            else:
                yield from grow(c + [x], seen)

    yield from grow([], 0)


def cases(tier):
    n = 6 if tier == "quick" else 7
    out = [[m, l, 0, 0, 1] for m in range(1, n) for l in range(1, m + 1)]
    for m, pf in ((n, 0), (n + 1, 1)):
        for l in range(1, m + 1):
            out += [[m, l, pf, k, 16] for k in range(16)]
    return out + [["big", p, l, x] for p in range(6) for l in (2, 3, 5, 8, 12)
                  for x in ((1, 4, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 9, 12))] + [
        ["big", p, l, x] for p in range(6) for l, x in ((20, 4), (30, 9), (2, 40), (24, 12), (33, 0), (3, 100))] + [
        ["stars", k, o] for k in ((3, 5, 8, 11) if tier == "quick" else (3, 4, 5, 6, 8, 9, 11, 12)) for o in range(5)]


def big(p, l, x):
    """l pure children, and x other columns following pattern p"""
    cols = [1 << i for i in range(l)]
    full = (1 << l) - 1
    for i in range(x):
        a, b = 1 << i % l, 1 << (3 * i + 1) % l
        cols.append((full, a, a | b, full & ~a or full, a | 1, (0x5555 << i % 2) & full | b)[p])
    k = len(cols)
    return tuple(cols[(5 * j + p) % k] if k % 5 else cols[-1 - j] for j in range(k))


def stars(k, order):
    """k measurements with 2 latents each, every latent with a pure child: 2**k maximal independent
    sets, one of them the largest"""
    cols = []
    for i in range(k):
        a, b = 1 << 2 * i, 2 << 2 * i
        cols.append(((a | b, a, b), (a, a | b, b), (a, b, a | b))[order if order < 3 else i % 3])
    return tuple(x for c in zip(*cols) for x in c) if order == 4 else tuple(x for c in cols for x in c)


def run(case, r):
    if case[0] == "stars":
        _, k, order = case
        return check(stars(k, order), 2 * k, r, k + order)
    if case[0] == "one":
        return check(tuple(case[1]), case[2], r, 0)
    if case[0] == "big":
        p, l, x = case[1:]
        return check(big(p, l, x), l, r, p + l + x)
    m, l, pf, k, step = case
    for i, c in enumerate(itertools.islice(structures(m, l, pf), k, None, step)):
        check(c, l, r, i)


def check(cols, l, r, i):
    n = len(cols)
    case = ["one", list(cols), l]
    adj = tuple(sum(1 << u for u in range(n) if u != v and cols[u] & cols[v]) for v in range(n))
    want = sorted(sum(1 << v for v in range(n) if cols[v] >> x & 1) for x in range(l))
    r.state(cols)
    for j, (name, f) in enumerate((("find_heuristic_1pc", ecc.find_heuristic_1pc),
                                   ("find_clique_min_cover", ecc.find_clique_min_cover))):
        g = ref.matrix(adj, (bool, int)[(i + j) % 2], ((i // 2) + j) % 2)
        ok, got = r.call(f, g, _case=case, _what=name)
        if not ok:
            return
        rows = sorted(ref.rows_to_masks(got))
        if rows != want:
            r.fail(f"{name} returned {[sorted(ref.bits(x)) for x in rows]}, the structure is "
                   f"{[sorted(ref.bits(x)) for x in want]}", case)
        r.trace((name, n, l))
    if l > 2 and n > 4:
        r.sample({"structure": [sorted(ref.bits(x)) for x in want]})
