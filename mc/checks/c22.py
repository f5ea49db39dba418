"""C22: which weight and which latent influences which measurement, decided for every single
weight, every set of measurements changed together, and every loading structure."""
import itertools

import numpy as np

import load
from checks import _nets

ID = "C22"
TIMEOUT = 120
EPS = 1e-10
ASSUMPTIONS = [
    "influence is decided at generic weights (away from zero and saturation) and by changes of "
    "several sizes of each weight",
]


def prepare(tier):
    global vae, torch
    vae = load.full("vae")
    import torch


LARGE = [(1, 2, h, w) for h in (0, 1, 2, 5, 7) for w in (1, 5, 8, 17)] + [
    (2, 3, 5, 4), (3, 3, 6, 1), (7, 2, 1, 2), (2, 7, 1, 2), (12, 12, 1, 1), (5, 11, 2, 2), (1, 10, 1, 3)]


def archs(tier):
    q = tier == "quick"
    M, L, H, W = (4, 4, 3, 3) if q else (5, 5, 4, 4)
    out = [(l, m, h, w) for m in range(1, M + 1) for l in range(1, L + 1)
           for h in range(0, H + 1) for w in range(1, W + 1)]
    return out + [a for a in LARGE if a not in out]


def BOUND(tier):
    a = [x for x in archs(tier) if x not in LARGE]
    return (f"all {len(a)} architectures with up to {a[-1][1]} measurements, {a[-1][0]} latents, "
            f"{a[-1][2]} hidden layers, width {a[-1][3]}, and {len(LARGE)} with up to 12 of each and width 17: every entry of every decoder parameter changed by 3 "
            "amounts; every set of measurements' loadings changed together; every loading "
            f"structure with at most {9 if tier == 'quick' else 12} entries, each latent changed; both modes")


def cases(tier):
    out = []
    for a in archs(tier):
        out.append(["weights", *a])
        out.append(["sets", *a])
        if a[0] * a[1] <= (9 if tier == "quick" else 12) and a[2] <= 2 and a[3] <= 2:
            out.append(["structures", *a])
    return out


def outputs(model, z, r):
    with torch.no_grad():
        ok, res = r.call(model.decoder, z, _what="decoder")
    if not ok:
        return None
    if len(res) != 2 or any(tuple(x.shape) != (len(z), M_) for x in res):
        r.fail(f"decoder output shapes {[tuple(x.shape) for x in res]} for {len(z)} rows of {M_} measurements")
        return None
    return res[0].numpy(), res[1].numpy()


def changed(a, b):
    """measurements whose (mean, log-variance) differ"""
    return tuple(frozenset(np.flatnonzero(np.abs(x - y).max(0) > EPS).tolist()) for x, y in zip(a, b))


def loadings(model):
    d = model.decoder
    return d.mean_linear_fulcon.weight, d.cov_linear_fulcon.weight


def run(case, r):
    global M_
    kind, l, m, h, w = case
    M_ = m
    none = frozenset()
    ok, model = r.call(_nets.build, vae, l, m, h, w, _what="constructing the model")
    if not ok:
        return
    for mode in (True, False):
        model.train(mode)
        z = _nets.inputs(3, l)
        base = outputs(model, z, r)
        if base is None:
            return
        if kind == "weights":
            load_ids = {id(p): i for i, p in enumerate(loadings(model))}
            for name, p in model.decoder.named_parameters():
                flat = p.data.view(-1)
                for e in range(flat.numel()):
                    seen = [set(), set()]
                    for delta in (-0.7, 0.31, 5.0) if mode else (0.31,):
                        old = flat[e].item()
                        flat[e] = old + delta
                        out = outputs(model, z, r)
                        flat[e] = old
                        if out is None:
                            return
                        for s, x in zip(seen, changed(base, out)):
                            s |= x
                    idx = tuple(int(i) for i in np.unravel_index(e, tuple(p.shape)))
                    both = seen[0] | seen[1]
                    r.state((l, m, h, w, name, e))
                    r.trace(("weights", len(both)))
                    if len(both) > 1:
                        return r.fail(f"weight {name}{idx} influences measurements {sorted(both)}", case)
                    if id(p) in load_ids:
                        j, which = idx[0] // w, load_ids[id(p)]
                        want = [set(), set()]
                        want[which] = {j}
                        if seen != want:
                            return r.fail(f"loading {name}{idx} belongs to measurement {j} but influences "
                                          f"means {sorted(seen[0])} and variances {sorted(seen[1])}", case)
                    elif ".weight" in name and "hidden" in name and tuple(p.shape) == (m * w, m * w):
                        want = {idx[0] // w} if idx[0] // w == idx[1] // w else set()
                        if both != want:
                            return r.fail(f"weight {name}{idx} (width {w}) influences measurements {sorted(both)}, "
                                          f"expected {sorted(want)}", case)
                    elif ".weight" in name and "output" in name and tuple(p.shape) == (m, m * w):
                        want = {idx[0]} if idx[0] == idx[1] // w else set()
                        if both != want:
                            return r.fail(f"weight {name}{idx} (width {w}) influences measurements {sorted(both)}, "
                                          f"expected {sorted(want)}", case)
        elif kind == "sets":
            for which, p in enumerate(loadings(model)):
                if tuple(p.shape) != (m * w, l):
                    return r.fail(f"loadings have shape {tuple(p.shape)}, not {(m * w, l)}", case)
                keep = p.data.clone()
                for s in itertools.chain.from_iterable(itertools.combinations(range(m), k) for k in range(1, m + 1)):
                    for val in (0.0, 4.0):
                        for j in s:
                            p.data[j * w:(j + 1) * w] = val
                        out = outputs(model, z, r)
                        p.data.copy_(keep)
                        if out is None:
                            return
                        got = changed(base, out)
                        want = [none, none]
                        want[which] = frozenset(s)
                        r.state((l, m, h, w, "set", s, val))
                        r.trace(("sets", len(s)))
                        if list(got) != want:
                            return r.fail(f"changing the {('mean', 'variance')[which]} loadings of measurements {list(s)} "
                                          f"changed means {sorted(got[0])} and variances {sorted(got[1])}", case)
        else:
            keeps = [p.data.clone() for p in loadings(model)]
            for pat in range(1 << (l * m)) if mode else ((1 << (l * m)) - 1,):
                biadj = np.array([[pat >> (i * m + j) & 1 for j in range(m)] for i in range(l)], bool)
                mask = torch.as_tensor(np.repeat(biadj.T, w, axis=0))
                for p, k in zip(loadings(model), keeps):
                    p.data.copy_(k * mask)
                base = outputs(model, z, r)
                for i in range(l):
                    z2 = z.clone()
                    z2[:, i] += 0.9
                    out = outputs(model, z2, r)
                    if out is None:
                        return
                    got = changed(base, out)
                    want = frozenset(np.flatnonzero(biadj[i]).tolist())
                    if got[0] != want or got[1] != want:
                        return r.fail(f"with loadings on {biadj.astype(int).tolist()}, latent {i} influences means "
                                      f"{sorted(got[0])} and variances {sorted(got[1])}", case)
                r.state((l, m, h, w, "structure", pat))
                r.trace(("structures", int(biadj.sum())))
            for p, k in zip(loadings(model), keeps):
                p.data.copy_(k)
    if kind == "weights" and m == 2 and w == 2:
        r.sample({"architecture": case[1:], "parameters": [n for n, _ in model.decoder.named_parameters()]})
