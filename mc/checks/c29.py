"""C29: the bundled examples: the structure generates the graph and is a minimum cover of it,
the exact search finds one as small - for the examples as given and for relabellings."""
import itertools

import numpy as np

import load
import ref

ID = "C29"
TIMEOUT = 120
ASSUMPTIONS = ["minimality is decided by the reference solver (self-tested in setup)"]


def prepare(tier):
    global ex, ecc
    ex, ecc = load.light("examples", "ecc_algorithms")


def found():
    """the examples in the tuple, and those only defined in the module"""
    out = list(ex.examples)
    for v in vars(ex).values():
        if isinstance(v, ex.ExampleUDGAndMCM) and not any(v is o for o in out):
            out.append(v)
    return out


def BOUND(tier):
    return ("all bundled examples; the exact search on " + (
        "all relabellings of up to 6 vertices, transpositions of neighbours and rotations of more" if tier == "quick"
        else "all relabellings (on 8 vertices: those fixing the last)") + ", bool and int")


def cases(tier):
    out = []
    for i, e in enumerate(found()):
        out.append(["static", i])
        n = len(e.UDG)
        k = 1
        for x in range(2, n + 1 if n <= 6 else n):
            k *= x
        if n > 6 and tier == "quick":
            out += [["relabel", i, j, j + 4, "few"] for j in range(0, 4 * n, 4)]
        else:
            out += [["relabel", i, a, b, "all"] for a, b in ref.batches(0, k, 60)]
    out.append(["count"])
    return out


def perms(n, kind):
    if kind == "all":
        return itertools.permutations(range(n)) if n <= 6 else (p + (n - 1,) for p in itertools.permutations(range(n - 1)))
    ident = list(range(n))
    out = []
    for k in range(n):
        rot = ident[k:] + ident[:k]
        out += [rot, rot[::-1]]
        swap = ident[:]
        swap[k], swap[(k + 1) % n] = swap[(k + 1) % n], swap[k]
        out += [swap, swap[::-1]]
    return out


def run(case, r):
    if case[0] == "count":
        r.state("count")
        if not len(ex.examples):
            r.fail("no examples")
        return
    e = found()[case[1]]
    udg, mcm = np.asarray(e.UDG), np.asarray(e.MCM)
    name = str(e.description)
    n = len(udg)
    if udg.ndim != 2 or udg.shape != (n, n) or mcm.ndim != 2 or mcm.shape[1] != n:
        return r.fail(f"{name}: shapes {udg.shape}, {mcm.shape}", case)
    if not np.isin(udg, (0, 1)).all() or not np.isin(mcm, (0, 1)).all():
        return r.fail(f"{name}: entries other than 0 and 1", case)
    if not np.array_equal(udg, udg.T) or not udg.diagonal().all():
        return r.fail(f"{name}: the graph isn't symmetric with a unit diagonal: {udg.tolist()}", case)
    adj = tuple(sum(1 << j for j in range(n) if j != i and udg[i, j]) for i in range(n))
    number = ref.ecc_number(adj)
    need = number + sum(1 for a in adj if not a)
    if case[0] == "static":
        problems = ref.cover_problems(adj, ref.rows_to_masks(mcm))
        if problems:
            return r.fail(f"{name}: the structure isn't a cover of the graph: {problems}", case)
        if len(mcm) != need:
            return r.fail(f"{name}: the structure has {len(mcm)} latents, {need} suffice", case)
        r.state(("static", name))
        r.trace(("static", len(mcm)))
        r.sample({"example": name, "latents": len(mcm)})
        return
    _, i, lo, hi, kind = case
    for j, p in enumerate(itertools.islice(perms(n, kind), lo, hi)):
        g = udg[np.ix_(p, p)].astype(bool if j % 2 else int)
        keep = g.copy()
        ok, cover = r.call(ecc.find_clique_min_cover, g, _case=case, _what=f"find_clique_min_cover of {name}")
        if not ok:
            return
        a = tuple(sum(1 << v for v in range(n) if v != u and keep[u, v]) for u in range(n))
        problems = ref.cover_problems(a, ref.rows_to_masks(np.asarray(cover)))
        if problems or len(cover) != need or len(cover) != len(mcm):
            return r.fail(f"{name} relabelled by {list(p)}: search finds {len(cover)} latents {problems or ''}, "
                          f"the example has {len(mcm)}", case)
        if not np.array_equal(g, keep):
            return r.fail(f"{name}: the graph was changed", case)
        r.state((name, tuple(p)))
        r.trace(("search", len(cover)))
