"""C24: the protocol of deep model training, observed at every call of the model and every
step of the optimiser, for all small datasets' splits, batch sizes and numbers of epochs."""
import copy
import itertools
import os
import shutil

import numpy as np

import load
from checks import _nets

ID = "C24"
TIMEOUT = 120
ASSUMPTIONS = [
    "calls of the model and steps of the optimiser are observed through torch's global hooks",
    "rows are identified by value; the datasets have distinct rows",
]


LARGE = tuple(range(17, 41)) + (50, 64, 99, 100, 101, 128, 199, 200, 201, 255, 256, 257)


def prepare(tier):
    global vae, models, torch
    vae, models = load.full("vae", "models")
    import torch


def dataset(n, m, k=0):
    g = np.random.default_rng(10 * n + m + 100 * k)
    d = g.standard_normal((n, m)) * (10.0 ** np.arange(m)) + 3 * np.arange(m)
    if k == 1:
        d[:, -1] = 2.0  # constant measurement
    if k == 2:
        d = np.round(d * 4).astype(int)
        d[:, 0] = np.arange(n)
    return d


def splits(n):
    """all ways of using rows for training and/or leaving some out"""
    for a in itertools.product((0, 1, 2), repeat=n):
        tr = [i for i in range(n) if a[i] == 0]
        va = [i for i in range(n) if a[i] == 1]
        if tr and va:
            yield tr, va


def BOUND(tier):
    q = tier == "quick"
    return (f"all explicit splits (rows may be left out) of {4 if q else 5} rows, as given and reversed, x batch sizes "
            f"1-{4 if q else 6} x 1-2 epochs; random splits of 4-{9 if q else 16} rows x all batch sizes x "
            f"0-{3 if q else 4} epochs x {2 if q else 5} seeds, and of 17-{257 if q else 2500} rows ({len(LARGE)}+ sizes) "
            f"x batch sizes 7, 32 and all (the largest also 1 and 2); 3 kinds of data; up to 3 fits of one object")


def cases(tier):
    q = tier == "quick"
    out = []
    n = 4 if q else 5
    sp = list(splits(n))
    for b in range(1, n + (1 if q else 2)):
        for k in range(0, len(sp), 25):
            out.append(["explicit", n, b, k, min(k + 25, len(sp))])
    for n in range(4, 10 if q else 17):
        for b in range(1, n + 1):
            out.append(["random", n, b, tier])
    for n in LARGE if q else LARGE + (333, 500, 1000, 1001, 2500):
        for b in (7, 32, n):
            out.append(["large", n, b])
    out += [["large", 257, b] for b in (1, 2)] + ([] if q else [["large", 2500, b] for b in (1, 2)])
    for kinds in itertools.product(("random", "explicit", "other"), repeat=2 if q else 3):
        out.append(["refit", *kinds])
    return out


def standardised(d):
    s = d.std(0)
    return (d - d.mean(0)) / np.where(s < 1e-12, 1, s)


class Watch:
    """what happens, in order: ("forward", rows, train mode, grad mode, sampled) and ("step",)"""

    def __init__(self, check_grads=False):
        self.events = []
        self.check_grads = check_grads
        self.problem = None
        self.cur = None
        self.depth = 0

    def pre(self, mod, args):
        if isinstance(mod, vae.VariationalAutoencoder):
            self.cur = {"x": args[0].detach().clone(), "modes": {x.training for x in mod.modules()},
                        "grad": torch.is_grad_enabled(), "z": None, "mu": None}
            if self.check_grads and self.cur["grad"]:
                self.twin = copy.deepcopy(mod)
                self.rng = torch.get_rng_state()
                self.captured = [None] * 4
                self.real = mod
        elif isinstance(mod, vae.Decoder) and self.cur is not None:
            self.cur["z"] = args[0].detach().clone()

    def post(self, mod, args, out):
        if isinstance(mod, vae.Encoder) and self.cur is not None:
            self.cur["mu"] = out[0].detach().clone()
        if isinstance(mod, vae.VariationalAutoencoder) and self.cur is not None:
            c, self.cur = self.cur, None
            sampled = None if c["z"] is None or c["mu"] is None else not torch.equal(c["z"], c["mu"])
            self.events.append(("forward", c["x"].numpy(), c["modes"], c["grad"], sampled))
            if self.check_grads and c["grad"]:
                cap = self.captured
                for i, o in enumerate(out):
                    if o.requires_grad:
                        def keep(g, i=i, cap=cap):
                            cap[i] = g.clone() if cap[i] is None else cap[i] + g
                        o.register_hook(keep)

    def step(self, opt, *_):
        self.events.append(("step",))
        if not self.check_grads or self.problem or getattr(self, "twin", None) is None:
            return
        # the gradients applied must come from this batch alone: recompute them from what the
        # loss passed back through this batch's outputs
        state = torch.get_rng_state()
        torch.set_rng_state(self.rng)
        twin = self.twin
        twin.zero_grad()
        with torch.enable_grad():
            outs = plain(twin, self.events[-2][1])
        torch.set_rng_state(state)
        ps = dict(twin.named_parameters())
        names, gs = [], []
        # what reaches an output is its total gradient: for the encoder's outputs it includes
        # what came back through the decoder
        for part, idx in (("decoder.", (0, 1)), ("encoder.", (2, 3))):
            pairs = [(outs[i], self.captured[i]) for i in idx if self.captured[i] is not None]
            ns = [n for n in ps if n.startswith(part) and n != "decoder.cov_linear_fulcon.weight"]
            if pairs and ns:
                names += ns
                gs += torch.autograd.grad([o for o, _ in pairs], [ps[n] for n in ns], [g for _, g in pairs],
                                          allow_unused=True, retain_graph=True)
        real = dict(self.real.named_parameters())
        for n, g in zip(names, gs):
            have = real[n].grad
            g = torch.zeros_like(ps[n]) if g is None else g
            have = torch.zeros_like(ps[n]) if have is None else have
            if not torch.allclose(have, g, rtol=1e-3, atol=1e-5 * (1 + float(g.abs().max()))):
                self.problem = (f"the update of {n} doesn't use the gradient of the batch just seen: "
                                f"{have.flatten()[:4].tolist()} instead of {g.flatten()[:4].tolist()}")
                return


def plain(model, x):
    global _muted
    _muted = True
    try:
        return model(torch.as_tensor(x))
    finally:
        _muted = False


_muted = False


def watched_fit(ncfa, data, split, r, what, grads=False):
    from torch.optim.optimizer import register_optimizer_step_pre_hook as hook

    w = Watch(grads)
    rm = hook(w.step)
    try:
        with _nets.module_hooks(lambda m, a: None if _muted else w.pre(m, a),
                                lambda m, a, o: None if _muted else w.post(m, a, o)):
            args = (data,) if split is None else (data, split)
            ok, res = r.call(ncfa.fit, *args, _what=what)
    finally:
        rm.remove()
    if ok and res is not ncfa:
        r.fail("fit didn't return the model")
    return w if ok else None


def identify(x, table, r):
    """row numbers of the (float32) rows seen"""
    out = []
    for row in x:
        d = np.abs(table - row).max(1)
        i = int(d.argmin())
        if d[i] > 1e-4 * (1 + np.abs(row).max()):
            return None
        out.append(i)
    return out


def judge(w, ncfa, data, split, epochs, r, case, desc):
    table = standardised(np.asarray(data, float))
    n = len(data)
    if w.problem:
        return r.fail(f"{desc}: {w.problem}", case)
    # phases: maximal runs of training/validation calls
    phases, ev = [], w.events
    i = 0
    while i < len(ev):
        if ev[i][0] == "step":
            return r.fail(f"{desc}: an optimiser step without a training batch before it", case)
        _, x, modes, grad, sampled = ev[i]
        stepped = i + 1 < len(ev) and ev[i + 1][0] == "step"
        rows = identify(x, table, r)
        if rows is None:
            return r.fail(f"{desc}: the model is shown rows that aren't the standardised dataset's: "
                          f"{x[:2].tolist()}", case)
        kind = "train" if stepped else "valid"
        if stepped and not (grad and modes == {True} and sampled):
            return r.fail(f"{desc}: a batch is trained on with modules in training mode {modes}, gradients "
                          f"{grad}, latents sampled {sampled}", case)
        if not stepped and (grad or modes != {False} or sampled):
            return r.fail(f"{desc}: a batch is evaluated with modules in training mode {modes}, gradients "
                          f"{grad}, latents sampled {sampled}", case)
        if not phases or phases[-1][0] != kind:
            phases.append((kind, []))
        phases[-1][1].extend(rows)
        i += 2 if stepped else 1
    if [k for k, _ in phases] != ["train", "valid"] * epochs:
        return r.fail(f"{desc}: phases {[k for k, _ in phases]} for {epochs} epochs", case)
    used = [(sorted(phases[j][1]), sorted(phases[j + 1][1])) for j in range(0, len(phases), 2)]
    for tr, va in used:
        if split is not None:
            if (tr, va) != (sorted(map(int, split[0])), sorted(map(int, split[1]))):
                return r.fail(f"{desc}: an epoch trains on rows {tr} and validates on {va}", case)
        elif sorted(tr + va) != list(range(n)) or not tr or not va or (n >= 10 and len(tr) <= len(va)):
            return r.fail(f"{desc}: an epoch trains on rows {tr} and validates on {va} of {n}", case)
        if (tr, va) != used[0]:
            return r.fail(f"{desc}: epochs use different splits {used}", case)
    keys = sorted(ncfa.loss)
    if keys != ["elbo_train", "elbo_valid", "recon_train", "recon_valid"]:
        return r.fail(f"{desc}: losses reported are {keys}", case)
    for k in keys:
        v = np.asarray(ncfa.loss[k], float)
        if v.shape != (epochs,) or not np.isfinite(v).all():
            return r.fail(f"{desc}: {k} is {v.tolist()} after {epochs} epochs", case)
    return used


def make(r, epochs, batch, seed=0, **h):
    path = f"ncfa{os.getpid()}/"
    shutil.rmtree(path, ignore_errors=True)
    ok, ncfa = r.call(models.NeuroCausalFactorAnalysis, path=path, seed=seed, _what="constructing")
    if ok:
        ncfa.hyperparams.update(num_epochs=epochs, batch_size=batch, **h)
    return ncfa


def run(case, r):
    kind = case[0]
    if kind == "explicit":
        _, n, b, lo, hi = case
        for tr, va in list(splits(n))[lo:hi]:
            for rev in (False, True):
                s = (tr[::-1], va[::-1]) if rev else (tr, va)
                s = [np.array(x) for x in s] if len(tr) % 2 else list(s)
                epochs = 1 + (len(va) + rev) % 2
                m = 2 + rev
                data = dataset(n, m, (len(tr) + rev) % 3)
                one(r, case, data, s, epochs, b, 0, f"{n} rows, split {tr}/{va}, batches of {b}", grads=rev)
    elif kind == "large":
        _, n, b = case
        one(r, case, dataset(n, 2, 0), None, 1, b, n % 3, f"{n} rows, random split, batches of {b}", grads=b == 7)
    elif kind == "random":
        _, n, b, tier = case
        q = tier == "quick"
        for epochs in range(0, 4 if q else 5):
            for seed in range(2 if q else 5):
                for k in range(3):
                    if epochs not in (1, 2) and k:
                        continue
                    one(r, case, dataset(n, 2, k), None, epochs, b, seed,
                        f"{n} rows, random split with seed {seed}, batches of {b}, {epochs} epochs", grads=k == 0)
    else:
        ncfa = make(r, 2, 2)
        if ncfa is None:
            return
        ncfa.hyperparams.update(num_epochs=2, batch_size=2)
        for i, k in enumerate(case[1:]):
            data = dataset(6 + (k == "other"), 2 + (k == "other"), 0)
            before = data.copy()
            split = None if k == "random" else ([0, 1, 2, 5], [3, 4])
            w = watched_fit(ncfa, data, split, r, f"fit {i} of {case[1:]}", True)
            if w is None or judge(w, ncfa, data, split, 2, r, case, f"fit {i} of {case[1:]}") is None:
                return
            if not np.array_equal(before, data):
                return r.fail("fit changed the dataset", case)
        r.state(tuple(case))
        r.trace("refit")


def one(r, case, data, split, epochs, b, seed, desc, grads=False):
    ncfa = make(r, epochs, b, seed)
    if ncfa is None:
        return
    before = data.copy()
    w = watched_fit(ncfa, data, split, r, f"fit ({desc})", grads)
    if w is None:
        return
    used = judge(w, ncfa, data, split, epochs, r, case, desc)
    if used is None:
        return
    if not np.array_equal(before, data):
        return r.fail(f"{desc}: fit changed the dataset", case)
    r.state((desc, tuple(map(str, used[:1])), data.dtype.str, float(data[0, 0])))
    r.step(len(w.events))
    r.trace((len(data), len(used), len(w.events)))
    if len(data) == 5 and b == 2 and epochs == 2:
        r.sample({"what": desc, "events": [e[0] if e[0] == "step" else [len(e[1]), sorted(e[2]), e[3], e[4]] for e in w.events]})
