"""C34: every update of the deep model's training, recomputed in double precision from the
definition: the gradient of the penalised objective, AdamW, and the learning rate of the epoch."""
import copy
import itertools
import os
import shutil
import warnings

import numpy as np

import load
from checks import _nets

ID = "C34"
TIMEOUT = 120
HYP = ((1, 0.01, 0.01), (0, 0.01, 0.01), (2.5, 0, 0), (1, 0.7, 0), (0.5, 0, 0.3), (1, 3, 2), (3000, 0, 50), (1e8, 0, 0), (1, 0, 1e8))
LR = (0.005, 0.1, 0.0)
B1, B2, EPS, DECAY = 0.9, 0.999, 1e-8, 1e-5
ASSUMPTIONS = [
    "an update is compared to 2% of the learning rate wherever the gradient is well above single precision's error",
    "the model is called once per batch (C24); weights are read at the beginning of each call",
]


def prepare(tier):
    global vae, models, torch
    vae, models = load.full("vae", "models")
    import torch


def BOUND(tier):
    q = tier == "quick"
    return (f"learning rates {LR} x {len(HYP)} settings of beta, lambda, mu x datasets of {'5' if q else '5, 6, 8'} rows "
            f"and 1-{2 if q else 3} measurements x all batch sizes x 2 epochs; 0-{2 if q else 3} hidden layers x width "
            f"1-{2 if q else 3}; starting with biases up to 12; up to {101 if q else 201} epochs of 1-3 batches; all histories of up to {2 if q else 3} fits with 3 settings")


def cases(tier):
    q = tier == "quick"
    out = []
    for lr, h, n, m in itertools.product(LR, range(len(HYP)), (5,) if q else (5, 6, 8), (1, 2) if q else (1, 2, 3)):
        out += [["grid", lr, h, n, m, b] for b in range(1, n)]
    for layers, width, m in itertools.product(range(3 if q else 4), (1, 2) if q else (1, 2, 3), (1, 2, 3)):
        out.append(["net", layers, width, m])
    out += [["far", s, m, h] for s in (3, 6, -9, 12) for m in (1, 2, 3) for h in range(len(HYP))]
    out += [["long", e, m, b] for e in ((2, 17, 26, 49, 50, 51, 101) if q else (2, 9, 17, 25, 26, 49, 50, 51, 52, 99, 100, 101, 155, 201))
            for m in (1, 2) for b in (1, 2, 3)]
    for n in range(2, 3 if q else 4):
        out += [["refit", *h] for h in itertools.product(range(3), repeat=n)]
    return out


class Watch:
    def __init__(self, shift=0):
        self.shift = shift
        self.calls = []
        self.cur = None
        self.nets = []

    def pre(self, mod, args):
        if isinstance(mod, vae.VariationalAutoencoder) and self.cur is None:
            if self.shift and not self.nets:  # start far out
                with torch.no_grad():
                    for k, p in mod.named_parameters():
                        if p.ndim == 1:
                            p.copy_(self.shift * (1 - 2 * (torch.arange(len(p)) % 2)))
            self.cur = {"x": args[0].detach().clone(), "train": torch.is_grad_enabled(), "net": mod,
                        "w": {k: p.detach().double().clone() for k, p in mod.named_parameters()}}
            if len(self.nets) == 0 or self.nets[-1] is not mod:
                self.nets.append(mod)
                self.twin = copy.deepcopy(mod).double()
            self.cur["twin"] = self.twin
        elif isinstance(mod, vae.Decoder) and self.cur is not None:
            self.cur["z"] = args[0].detach().double().clone()

    def post(self, mod, args, out):
        if isinstance(mod, vae.VariationalAutoencoder) and self.cur is not None:
            c, self.cur = self.cur, None
            self.calls.append(c)


def objective(c, hyp):
    """the objective of a batch, given the noise it was drawn with"""
    beta, lam, reg = hyp
    twin, x = c["twin"], c["x"].double()
    with torch.no_grad():
        for k, p in twin.named_parameters():
            p.copy_(c["w"][k])
            p.grad = None
    mu, lv = twin.encoder(x)
    std = torch.exp(lv / 2)
    eps = ((c["z"] - mu) / std).detach()
    xr, lc = twin.decoder(mu + std * eps)
    cov = torch.exp(lc).mean(0)
    loss = 0.5 * (len(x) * torch.log(cov).sum() + ((x - xr) ** 2 / cov).sum())
    loss = loss + beta * 0.5 * (torch.exp(lv) + mu ** 2 - 1 - lv).sum()
    w = twin.decoder.cov_linear_fulcon.weight
    if lam:
        loss = loss + lam * torch.linalg.svdvals(w).sum()
    if reg:
        loss = loss + reg * w.abs().sum()
    loss.backward()
    return {k: np.zeros(tuple(p.shape)) if p.grad is None else p.grad.numpy().copy()
            for k, p in twin.named_parameters()}


def judge(calls, last, hyp, lr, epochs, r, case, desc):
    """every update of one fit"""
    train = [c for c in calls if c["train"]]
    if not train:
        if epochs:
            r.fail(f"{desc}: no batch was trained on", case)
        return
    m1 = {k: np.zeros(tuple(p.shape)) for k, p in train[0]["w"].items()}
    m2 = {k: np.zeros(tuple(p.shape)) for k, p in train[0]["w"].items()}
    epoch, t, prev = 0, 0, True
    for i, c in enumerate(calls):
        if c["train"] and not prev:
            epoch += 1
        prev = c["train"]
        after = calls[i + 1]["w"] if i + 1 < len(calls) else last
        if not c["train"]:
            if any((after[k] != c["w"][k]).any() for k in after):
                return r.fail(f"{desc}: weights change by validating in epoch {epoch}", case)
            continue
        t += 1
        rate = lr * 0.9 ** (epoch // 50)
        grads = objective(c, hyp)
        for k, g in grads.items():
            m1[k] = B1 * m1[k] + (1 - B1) * g
            m2[k] = B2 * m2[k] + (1 - B2) * g * g
            w = c["w"][k].numpy()
            size = np.sqrt(m2[k] / (1 - B2 ** t))
            step = rate * (m1[k] / (1 - B1 ** t)) / (size + EPS)
            want = w * (1 - rate * DECAY) - step
            bound = 0.02 * rate + 3e-7 * (1 + np.abs(w))
            # where the gradient is lost in single precision, any step of an update's size
            scale = max(1.0, max(float(np.abs(v).max(initial=0)) for v in grads.values()))
            bound = np.where((size > 1e-5 * scale) | (m2[k] == 0), bound, 4 * rate + 1e-6)
            got = after[k].numpy()
            if not (np.abs(got - want) <= bound).all():
                j = np.unravel_index(np.argmax(np.abs(got - want) - bound), got.shape)
                return r.fail(f"{desc}: in epoch {epoch}, update {t}, {k}{[int(a) for a in j]} goes from {w[j]:.6g} to {got[j]:.6g}; "
                              f"the gradient {g[j]:.4g} of the objective moves it to {want[j]:.6g} at rate {rate:.4g}", case)
        r.step()
    if epoch + 1 != epochs:
        r.fail(f"{desc}: {epoch + 1} epochs, should be {epochs}", case)


def weights(net):
    return {k: p.detach().double().clone() for k, p in net.named_parameters()}


def data(n, m, k=0):
    return np.random.default_rng(7 * n + m + 31 * k).standard_normal((n, m)) * (1 + np.arange(m))


def fit(ncfa, x, split, r, case, desc, shift=0):
    watch = Watch(shift)
    with _nets.module_hooks(watch.pre, watch.post), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, _ = r.call(ncfa.fit, x, split, _case=case, _what=desc)
    return watch.calls if ok else None


def new(r, case, seed=0):
    path = f"ncfa{os.getpid()}/"
    shutil.rmtree(path, ignore_errors=True)
    ok, ncfa = r.call(models.NeuroCausalFactorAnalysis, path=path, seed=seed, _case=case, _what="constructing")
    return ncfa if ok else None


def go(ncfa, x, split, hyp, lr, epochs, r, case, desc, shift=0, **h):
    ncfa.hyperparams.update({"beta": hyp[0], "lambda": hyp[1], "mu": hyp[2], "lr": lr, "num_epochs": epochs, **h})
    calls = fit(ncfa, x, split, r, case, desc, shift)
    if calls is None:
        return
    judge(calls, weights(ncfa.parameters.vae), hyp, lr, epochs, r, case, desc)


def run(case, r):
    if case[0] == "grid":
        _, lr, h, n, m, b = case
        ncfa = new(r, case, h)
        if ncfa is None:
            return
        go(ncfa, data(n, m), (np.arange(n - 1), [n - 1]), HYP[h], lr, 2, r, case,
           f"{n - 1} rows, batches of {b}, (beta, lambda, mu) = {HYP[h]}, lr = {lr}", batch_size=b)
        r.trace(("grid", lr, h, b))
    elif case[0] == "net":
        _, layers, width, m = case
        ncfa = new(r, case, layers)
        if ncfa is None:
            return
        for h, b in ((0, 2), (3, 4), (4, 3)):
            go(ncfa, data(6, m), None, HYP[h], 0.01, 2, r, case,
               f"{layers} layers of width {width}, (beta, lambda, mu) = {HYP[h]}", batch_size=b,
               num_hidden_layers=layers, width_per_meas=width)
            r.trace(("net", layers, width, m, h))
    elif case[0] == "far":
        _, shift, m, h = case
        ncfa = new(r, case, m)
        if ncfa is None:
            return
        go(ncfa, data(6, m), None, HYP[h], 0.05, 3, r, case, f"biases of {shift}, (beta, lambda, mu) = {HYP[h]}", shift,
           batch_size=2)
        r.trace(("far", shift, m, h))
    elif case[0] == "long":
        _, e, m, b = case
        ncfa = new(r, case)
        if ncfa is None:
            return
        go(ncfa, data(4, m), ([0, 1, 2], [3]), HYP[0], 0.01, e, r, case, f"{e} epochs, batches of {b}", batch_size=b)
        r.trace(("long", e, b))
    else:
        ncfa = new(r, case)
        if ncfa is None:
            return
        for i, k in enumerate(case[1:]):
            lr, h, n, m, b, e = ((0.005, 0, 5, 2, 2, 2), (0.05, 3, 6, 2, 3, 1), (0.02, 4, 5, 1, 5, 3))[k]
            go(ncfa, data(n, m, k), None, HYP[h], lr, e, r, case, f"fit {i} of {case[1:]}", batch_size=b)
            r.trace(("refit", i, k))
    r.state(tuple(case))
    shutil.rmtree(f"ncfa{os.getpid()}/", ignore_errors=True)
