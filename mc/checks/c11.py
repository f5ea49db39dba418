"""C11: random linear Gaussian models under every draw; dependence on the generator only."""
import itertools

import numpy as np

import core
import load
import rngs

ID = "C11"
TIMEOUT = 60
ASSUMPTIONS = [
    "draws from [0,1) take the values 0, 0.5 and 1-2^-53 (the extremes of the parameter ranges)",
    "histories are made of the public random calls of medil.sample and GaussianMCM.sample",
]
STRUCTURES = [
    [[1]], [[1, 1]], [[1, 0], [0, 1]], [[1, 1, 0], [0, 1, 1]], [[1, 1, 1]],
    [[1, 1, 0, 0], [0, 1, 1, 1]], [[1, 0, 1, 0], [0, 1, 0, 1], [1, 1, 0, 0]],
    [[1, 1], [0, 0]], [[0, 0, 0], [1, 1, 0]], [[1, 1], [1, 1]], [[0], [0]], [[1, 0, 1], [0, 0, 0], [1, 0, 1]],
]
HIST = ("mcm", "mcm_vae", "biadj", "biadj_er", "mcm_rng", "mcm_given", "sample", "global")


def prepare(tier):
    global sample, models
    sample, models = load.full("sample", "models")


def BOUND(tier):
    q = tier == "quick"
    return (f"parameters: all draws with at most {2 if q else 3} values differing from the smallest, for "
            f"{len(STRUCTURES)} structures given and for structures drawn with 2-3 measurements; all draws "
            "for structures with at most 2 edges; structures stored as integers, and with up to 130 measurements, with "
            "one value differing; generator: all histories of "
            f"length <= {2 if q else 3} of {len(HIST)} kinds of earlier calls, for "
            f"{2 if q else 4} seeds and 6 ways of asking for a model")


def cases(tier):
    q = tier == "quick"
    out = []
    for i, s in enumerate(STRUCTURES):
        out.append(["given", i, None if sum(map(sum, s)) <= 2 else 2 if q else 3])
        out.append(["given int", i, 1 if q else 2])
    for l, m in ((3, 10), (10, 12), (5, 40), (20, 65), (1, 130)):
        out.append(["large", [l, m], 1])
    for m in (2, 3):
        out.append(["drawn", m, 2 if q else 3])
    for kind in range(6):
        for seed in range(2 if q else 4):
            out += [["hist", kind, seed, list(h)] for n in range(3 if q else 4)
                    for h in itertools.product(HIST, repeat=n)]
    return out


def run(case, r):
    if case[0] == "hist":
        return hist(case, r)
    given = None
    if case[0] == "given":
        given = np.array(STRUCTURES[case[1]], bool)
    elif case[0] == "given int":
        given = np.array(STRUCTURES[case[1]], (int, np.uint8)[case[1] % 2])
    elif case[0] == "large":
        l, m = case[1]
        given = (np.add.outer(np.arange(l) * 3, np.arange(m)) % l < 2)

    def execute(c):
        g = rngs.ChoiceRng(c)
        one = [case[0], case[1], list(c.taken)]
        if given is not None:
            b = given.copy()
            return r.call(sample.mcm, rng=g, biadj=b, _case=case, _what="mcm"), b
        return r.call(sample.mcm, rng=g, num_meas=case[1], _case=case, _what="mcm"), None

    gen = core.explore(execute, deviations=case[2], rep=r)
    if len(case) > 3:
        c = core.Chooser(case[3])
        gen = [(c, execute(c))]
    seen = {}
    for c, ((ok, m), b) in gen:
        if not ok:
            return
        one = case[:3] + [list(c.taken)]
        if given is not None:
            if not (b == given).all():
                r.fail("the structure passed in was changed", one)
            if np.asarray(m.biadj).shape != given.shape or not (m.biadj == given).all():
                r.fail(f"the structure passed in isn't the model's: {m.biadj}", one)
        s = np.asarray(m.biadj)
        p = m.parameters
        w, mu, var = (np.asarray(getattr(p, a)) for a in ("biadj_weights", "error_means", "error_variances"))
        if w.shape != s.shape or mu.shape != (s.shape[1],) or var.shape != mu.shape:
            r.fail(f"shapes {w.shape} {mu.shape} {var.shape} for structure {s.shape}", one)
            continue
        on = s.astype(bool)
        if (w[~on] != 0).any():
            r.fail(f"weights off the structure: {w.tolist()}", one)
        if not ((np.abs(w[on]) >= 0.5) & (np.abs(w[on]) < 2)).all():
            r.fail(f"weights outside [0.5, 2): {w.tolist()}", one)
        if not ((var >= 0.5) & (var < 2)).all():
            r.fail(f"error variances outside [0.5, 2): {var.tolist()}", one)
        if not (np.abs(mu) <= 2).all():
            r.fail(f"error means further than 2 from zero: {mu.tolist()}", one)
        if given is not None:
            reach(seen, w[on], mu, var)
        r.state((case[0], str(case[1]), tuple(c.taken)))
        r.trace((np.sign(w[on]).sum(), round(float(np.abs(w).sum()), 2)))
    if given is not None and len(case) == 3 and not r.cut:
        reached(seen, case, r)
    r.sample({"case": case, "weights": w.round(3).tolist(), "variances": var.round(3).tolist()})


def reach(seen, w, mu, var):
    """signs and extremes met so far"""
    for name, v, lo, hi in (("weight", w, 0.6, 1.9), ("error mean", mu, 0.1, 1.9), ("error variance", var, 0.6, 1.9)):
        got = seen.setdefault(name, np.zeros((4, len(v)), bool))
        got[0] |= v > 0
        got[1] |= v < 0
        got[2] |= np.abs(v) < lo
        got[3] |= np.abs(v) > hi
    signs = seen.setdefault("signs", set())
    signs.add(tuple(w > 0))


def reached(seen, case, r):
    """every sign, and values near both ends of each range, can be drawn"""
    if not seen:
        return
    for name in ("weight", "error mean", "error variance"):
        got = seen[name]
        for k, text in enumerate(("positive", "negative", "near the lower end of its range", "near the upper end of its range")):
            if not got[k].all() and not (
                    k == 1 and name == "error variance" or k < 2 and name == "error mean" and case[2] == 1):
                r.fail(f"{name} {int(np.argmin(got[k]))} of structure {case[1]} can't be {text}", case)
                return
    n = seen["weight"].shape[1]
    if case[2] is None and len(seen["signs"]) != 2 ** n:
        r.fail(f"only {len(seen['signs'])} of {2 ** n} combinations of signs of the weights can be drawn", case)


def ask(kind, rng):
    if kind == 0:
        return sample.mcm(rng=rng, num_meas=4)
    if kind == 1:
        return sample.mcm(rng=rng, num_meas=5, density=0.5, num_latent=2)
    if kind == 2:
        return sample.mcm(rng=rng, num_meas=4, density=0.5, one_pure_child=False)
    if kind == 3:
        return sample.mcm(rng=rng, biadj=np.array([[1, 1, 0], [0, 1, 1]], bool))
    if kind == 4:
        return sample.mcm(rng, "Gaussian", num_meas=4, density=None)
    return sample.mcm(rng=rng, parameterization="Gaussian", num_meas=3)


def before(op, store):
    if op == "mcm":
        store.append(sample.mcm(num_meas=3))
    elif op == "mcm_vae":
        for p in ("VAE", "nonsense"):
            try:
                sample.mcm(parameterization=p, num_meas=3)
            except (NotImplementedError, ValueError):
                pass
    elif op == "biadj":
        sample.biadj(4)
    elif op == "biadj_er":
        sample.biadj(3, one_pure_child=False)
    elif op == "mcm_rng":
        store.append(sample.mcm(rng=np.random.default_rng(77), num_meas=4))
    elif op == "mcm_given":
        store.append(sample.mcm(biadj=np.eye(2, dtype=bool)))
    elif op == "sample":
        (store[-1] if store else sample.mcm(num_meas=2)).sample(3)
    elif op == "global":
        np.random.default_rng(5).random(3)
        np.random.seed(99)
        np.random.random(3)


_fresh = {}


def result(kind, seed, r, case):
    ok, m = r.call(ask, kind, np.random.default_rng(seed), _case=case, _what="mcm")
    if not ok:
        return None
    ok, s = r.call(m.sample, 4, _case=case, _what="sample")
    if not ok:
        return None
    p = m.parameters
    return [np.asarray(x).tolist() for x in (m.biadj, p.biadj_weights, p.error_means,
                                            p.error_variances, s)]


def hist(case, r):
    _, kind, seed, h = case
    if (kind, seed) not in _fresh:
        _fresh[kind, seed] = result(kind, seed, r, ["hist", kind, seed, []])
    store = []
    for op in h:
        ok, _ = r.call(before, op, store, _case=case, _what=f"{op}")
        if not ok:
            return
    got = result(kind, seed, r, case)
    if got is None:
        return
    r.state((kind, seed, tuple(h)))
    r.trace((kind, seed))
    for name, a, b in zip(("structure", "weights", "error means", "error variances", "sample"),
                          got, _fresh[kind, seed]):
        if a != b:
            return r.fail(f"{name} drawn with the same generator differ after {h}: {a} and {b}", case)
