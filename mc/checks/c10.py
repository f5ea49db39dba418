"""C10: sample.biadj(one_pure_child=False) under every outcome of the random generator."""
import itertools
from math import comb

import numpy as np

import core
import load
import ref
import rngs

ID = "C10"
TIMEOUT = 60
ASSUMPTIONS = ["the generator is replaced by one whose draws are enumerated"]


def prepare(tier):
    global sample
    sample = load.full("sample")


def densities(tier):
    return (0, 0.2, 0.5, 0.8, 1) if tier == "quick" else (0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1)


def BOUND(tier):
    return (f"all outcomes of the generator for 1-6 measurements and densities {densities(tier)}"
            + ("" if tier == "quick" else ", 7 measurements and densities 0.1, 0.2, 0.3, 0.8, 0.9")
            + f"; {FEW} measurements: the first 60 outcomes with one draw differing from the smallest; default density for 2-5 measurements; rejected numbers of latents 1-3")


def cases(tier):
    out = [["reject", m, l] for m in (1, 2, 4) for l in (1, 2, 3)]
    for m in range(1, 6):
        out += [["draw", m, d] for d in densities(tier) + ((None,) if m > 1 else ())]
    out += [["draw", 6, d, i] for d in densities(tier) for i in range(16)]
    if tier != "quick":
        out += [["draw", 7, d, i] for d in (0.1, 0.2, 0.3, 0.8, 0.9) for i in range(16)]
    out += [["draw", m, d, "few"] for m in FEW for d in densities(tier)]
    return out


FEW = (7, 8, 9, 10)


def run(case, r):
    if case[0] == "reject":
        r.state(tuple(case))
        try:
            sample.biadj(case[1], one_pure_child=False, num_latent=case[2],
                         rng=np.random.default_rng(0))
        except ValueError:
            r.trace("rejected")
        except Exception as e:
            r.fail(f"a number of latents raised {type(e).__name__}, not ValueError")
        else:
            r.fail("a number of latents was not rejected")
        return
    m, d = case[1], case[2]
    part = case[3] if len(case) > 3 and not isinstance(case[3], list) else None
    few = part == "few"
    kw = {"num_meas": m, "one_pure_child": False}
    if d is not None:
        kw["density"] = d
    ask = 0.2 if d is None else d

    def execute(c):
        g = rngs.ChoiceRng(c, thin=True)
        return r.call(sample.biadj, _case=["draw", m, d, list(c.taken)], _what="biadj", rng=g, **kw), g

    if len(case) > 3 and isinstance(case[3], list):
        c = core.Chooser(case[3])
        gen = [(c, execute(c))]
        part = -1
    elif few:
        gen = itertools.islice(core.explore(execute, deviations=1, rep=r), 60)
    elif part is None:
        gen = core.explore(execute, rep=r)
    else:
        gen = core.explore_part(execute, part, 16, rep=r)
    reached = set()
    opaque = 0
    for c, ((ok, got), g) in gen:
        if not ok:
            return
        opaque += not g.complete()
        one = ["draw", m, d, list(c.taken)]
        got = np.asarray(got)
        if got.dtype != bool or got.ndim != 2 or got.shape[1] != m:
            r.fail(f"biadj returned a {got.dtype} array of shape {got.shape}", one)
            continue
        rows = ref.rows_to_masks(got)
        adj = [0] * m
        for x in rows:
            for v in ref.bits(x):
                adj[v] |= x & ~(1 << v)
        adj = tuple(adj)
        ne = len(ref.edges(adj))
        if any(not any(x >> v & 1 for x in rows) for v in range(m)):
            r.fail(f"a measurement has no parent: {got.astype(int).tolist()}", one)
        if abs(ne - ask * comb(m, 2)) > 0.5 + 1e-9:
            r.fail(f"{ne} edges, density asks for {ask * comb(m, 2)}", one)
        want = ref.ecc_number(adj)
        if len(rows) != want:
            r.fail(f"{len(rows)} latents, {want} generate the same graph: "
                   f"{got.astype(int).tolist()}", one)
        reached.add((ne, ref.to_mask(adj)))
        r.state((m, adj))
        r.trace((m, ne, len(rows)))
    if part is not None or opaque or r.cut:
        return
    for ne in {k for k, _ in reached}:
        have = sum(1 for k, _ in reached if k == ne)
        if have != comb(comb(m, 2), ne):
            r.fail(f"only {have} of {comb(comb(m, 2), ne)} graphs with {ne} edges are ever drawn")
    r.sample({"measurements": m, "density": ask, "graphs": len(reached)})
