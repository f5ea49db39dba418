"""C30: the losses reported, recomputed from what the model answered for each batch; the
model's answers are enumerated over a grid (through hooks), or its own in real trainings."""
import itertools
import os
import shutil

import numpy as np

import load
from checks import _nets

ID = "C30"
TIMEOUT = 120
TOL = 2e-4
RES = (0.0, 1.0, -2.0)
LC = (0.0, -1.0, 2.0)
MU = (0.0, 1.5, -1.0)
LV = (0.0, -2.0, 1.0)
HYP = ((1, 0.01, 0.01), (0, 0.01, 0.01), (2.5, 0, 0), (1, 0.7, 0), (0.5, 0, 0.3), (1, 3, 2), (1, 0, 0))
ASSUMPTIONS = [
    "losses are compared to 2e-4 relative to the size of their terms (single precision)",
    "the model is called once per batch (C24), and answers are recorded by torch's global hooks",
]


def prepare(tier):
    global vae, models, torch
    vae, models = load.full("vae", "models")
    import torch


def BOUND(tier):
    q = tier == "quick"
    n = 2 if q else 3
    return (f"answers of the decoder from residuals {RES} x log-variances {LC}, and of the encoder from means "
            f"{MU} x log-variances {LV}, all combinations for up to {n} values per batch (1 and 2 rows, 1-{n} "
            f"measurements), x {len(HYP)} settings of beta, lambda, mu; up to 64 measurements with log-variances of the "
            f"decoder or the encoder up to +-20; real trainings of {5 if q else 7}-{9 if q else 16} rows with all batch sizes x 3 architectures x settings")


def shapes(tier):
    out = [(1, 1), (1, 2), (2, 1)]
    return out if tier == "quick" else out + [(1, 3), (3, 1)]


def cases(tier):
    q = tier == "quick"
    out = []
    for s in shapes(tier):
        for part in ("dec", "enc"):
            total = 9 ** (s[0] * s[1])
            for lo in range(0, total, 81):
                out.append(["grid", part, *s, lo, min(lo + 81, total)])
    for m in (1, 3, 8, 24, 64):
        for lc in (-20.0, -5.0, 0.0, 5.0, 20.0):
            out += [["large", m, lc], ["large enc", m, lc]]
    for n in ((5, 6, 9) if q else (7, 8, 9, 12, 16)):
        for b in range(1, n + 1):
            out.append(["real", n, b])
    return out


def formula(rec, hyp, train):
    """(value of the loss, size of its terms, reconstruction error)"""
    x, xr, lc, mu, lv, w = (np.asarray(v, float) for v in rec)
    beta, lam, reg = hyp
    cov = np.exp(lc).mean(0)
    terms = [0.5 * len(x) * np.log(cov).sum(), 0.5 * ((x - xr) ** 2 / cov).sum(),
             beta * 0.5 * (np.exp(lv) + mu ** 2 - 1 - lv).sum()]
    if train:
        terms += [lam * np.linalg.svd(w, compute_uv=False).sum(), reg * np.abs(w).sum()]
    return sum(terms), sum(map(abs, terms)) + 0.5 * len(x) * np.abs(np.log(cov)).sum(), \
        np.linalg.svd(x - xr, compute_uv=False).max(initial=0)


class Record:
    """calls of the model; with `answers`, they are what the encoder and decoder say"""

    def __init__(self, answers=None):
        self.answers = answers
        self.calls = []
        self.cur = None

    def pre(self, mod, args):
        if isinstance(mod, vae.VariationalAutoencoder):
            self.cur = {"x": args[0].detach().numpy().copy(),
                        "w": mod.decoder.cov_linear_fulcon.weight.detach().numpy().copy(),
                        "train": torch.is_grad_enabled()}

    def post(self, mod, args, out):
        if self.cur is None:
            return None
        if self.answers is not None:
            if isinstance(mod, vae.Encoder):
                mu, lv = self.answers(self.cur)[2:]
                return tuple(o * 0 + torch.as_tensor(np.asarray(a, np.float32)) for o, a in zip(out, (mu, lv)))
            if isinstance(mod, vae.Decoder):
                res, lc = self.answers(self.cur)[:2]
                target = torch.as_tensor(self.cur["x"] - np.asarray(res, np.float32))
                return out[0] * 0 + target, out[1] * 0 + torch.as_tensor(np.asarray(lc, np.float32))
        if isinstance(mod, vae.VariationalAutoencoder):
            c, self.cur = self.cur, None
            c["out"] = [o.detach().numpy().copy() for o in out]
            self.calls.append(c)
        return None


def fit(r, data, split, hyp, answers=None, what="fit", **h):
    path = f"ncfa{os.getpid()}/"
    shutil.rmtree(path, ignore_errors=True)
    ok, ncfa = r.call(models.NeuroCausalFactorAnalysis, path=path, _what="constructing")
    if not ok:
        return None
    ncfa.hyperparams.update({"beta": hyp[0], "lambda": hyp[1], "mu": hyp[2], **h})
    rec = Record(answers)
    with _nets.module_hooks(rec.pre, rec.post):
        ok, _ = r.call(ncfa.fit, data, split, _what=what)
    return (ncfa, rec) if ok else None


def judge(ncfa, rec, hyp, epochs, r, case, desc):
    want = {k: [] for k in ("elbo_train", "elbo_valid", "recon_train", "recon_valid")}
    size = {k: [] for k in want}
    # epochs: training calls, then validation calls
    groups, prev = [], None
    for c in rec.calls:
        if c["train"] != prev:
            groups.append([])
            prev = c["train"]
        groups[-1].append(c)
    if len(groups) != 2 * epochs:
        return r.fail(f"{desc}: {len(groups)} phases in {epochs} epochs", case)
    for g in groups:
        t = g[0]["train"]
        vals = []
        for c in g:
            l, s, e = formula((c["x"], *c["out"], c["w"]), hyp, t)
            n = len(c["x"])
            vals.append((l / n, s / n, e / n))
        v = np.mean(vals, 0)
        name = "train" if t else "valid"
        want["elbo_" + name].append(v[0])
        size["elbo_" + name].append(v[1])
        want["recon_" + name].append(v[2])
        size["recon_" + name].append(v[2])
    for k in want:
        got = np.asarray(ncfa.loss[k], float)
        if got.shape != (epochs,):
            return r.fail(f"{desc}: {k} has {got.shape} values", case)
        for e in range(epochs):
            if not abs(got[e] - want[k][e]) <= TOL * (size[k][e] + 1e-2):
                return r.fail(f"{desc}: {k} of epoch {e} is {got[e]:.7g}, but the answers give {want[k][e]:.7g}", case)
    r.step(len(rec.calls))
    return True


def run(case, r):
    kind = case[0]
    if kind == "grid":
        _, part, rows, m, lo, hi = case
        g = np.random.default_rng(3)
        data = g.standard_normal((2 * rows + 1, m))
        split = (list(range(rows)), list(range(rows, 2 * rows)))
        k = rows * m
        grid = list(itertools.product(*([RES if part == "dec" else MU] * k + [LC if part == "dec" else LV] * k)))
        for i in range(lo, hi):
            v = np.array(grid[i]).reshape(2, rows, m)
            other = np.array(grid[(i * 7 + 3) % len(grid)]).reshape(2, rows, m)
            zero = np.full((rows, m), 0.5)

            def answers(c):
                a = v if c["train"] else other
                return (a[0], a[1], zero, zero * 0.5) if part == "dec" else (zero, zero * 0.5, a[0], a[1])

            for hyp in HYP if i % 3 == 0 or k == 1 else HYP[:2]:
                res = fit(r, data, split, hyp, answers, num_epochs=1, batch_size=rows, width_per_meas=1 + i % 2,
                          what=f"fit with {part} answers {v.tolist()}")
                if res is None:
                    return
                if not judge(*res, hyp, 1, r, case, f"{part} answers {v.tolist()} / {other.tolist()}, settings {hyp}"):
                    return
                r.state((part, rows, m, i, hyp))
                r.trace((part, rows, m))
                if i == 40 and hyp is HYP[0]:
                    r.sample({"answers": v.tolist(), "loss": {a: list(map(float, b)) for a, b in res[0].loss.items()}})
    elif kind.startswith("large"):
        _, m, lc = case
        g = np.random.default_rng(4)
        data = g.standard_normal((6, m))
        for pattern in (0, 1):
            lcs = np.full((2, m), lc) if pattern == 0 else lc * np.cos(np.arange(2 * m)).reshape(2, m)
            dev = np.exp(lcs / 2) * g.uniform(-1, 1, (2, m))
            a = (dev, lcs, np.zeros((2, m)), np.zeros((2, m)))
            if kind == "large enc":
                a = (np.zeros((2, m)), np.zeros((2, m)), dev * 10, lcs)
            for hyp in HYP[:3]:
                res = fit(r, data, ([0, 1], [2, 3]), hyp, lambda c: a, num_epochs=1, batch_size=2, what=f"fit, {m} measurements")
                if res is None or not judge(*res, hyp, 1, r, case, f"{m} measurements, {'encoded ' * (kind != 'large')}log-variances about {lc}"):
                    return
                r.state((kind, m, lc, pattern, hyp))
                r.trace((kind, m))
    else:
        _, n, b = case
        g = np.random.default_rng(n)
        for m, h, w in ((2, 0, 1), (3, 1, 2), (2, 2, 1)):
            data = g.standard_normal((n, m)) * 5 + 2
            for split in (None, (list(range(n - 2)), [n - 2, n - 1])):
                for j, hyp in enumerate(HYP[::2]):
                    if j and split is None:
                        continue
                    epochs = 1 + (j + b) % 3
                    res = fit(r, data, split, hyp, num_epochs=epochs, batch_size=b, num_hidden_layers=h,
                              width_per_meas=w, what="fit")
                    if res is None or not judge(*res, hyp, epochs, r, case, f"{n} rows, batches of {b}, settings {hyp}, epochs {epochs}"):
                        return
                    r.state((n, b, m, h, w, split is None, hyp))
                    r.trace(("real", epochs))
