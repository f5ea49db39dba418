"""C23: what influences the output is trained, saved and restored; what is masked is not
trained; latents are drawn in training mode only."""
import copy
import io
import itertools
import os

import numpy as np

import load
from checks import _nets
from checks._patch import patched

ID = "C23"
TIMEOUT = 120
ASSUMPTIONS = [
    "gradients are compared with central differences in double precision at generic weights",
    "if latents are not drawn through torch's normal_, randn, randn_like or normal, the "
    "location-scale form is decided for the draws of fixed seeds instead of enumerated draws",
]
NOISE = (-1.0, 0.0, 2.0, -7.0)


def prepare(tier):
    global vae, models, torch
    vae, models = load.full("vae", "models")
    import torch


LARGE = [(1, 2, 1, 5), (2, 2, 2, 8), (4, 6, 1, 2), (1, 1, 5, 1), (1, 2, 11, 1), (6, 2, 0, 3), (1, 9, 1, 1), (9, 1, 1, 1)]


def archs(tier):
    if tier == "quick":
        M, L, H, W = 3, 3, 3, 2
    else:
        M, L, H, W = 4, 4, 4, 3
    return [(l, m, h, w) for m in range(1, M + 1) for l in range(1, L + 1)
            for h in range(0, H + 1) for w in range(1, W + 1)]


def BOUND(tier):
    q = tier == "quick"
    a = archs(tier)
    return (f"all {len(a)} architectures with up to {a[-1][1]} measurements, {a[-1][0]} latents, {a[-1][2]} hidden "
            f"layers, width {a[-1][3]}, and {len(LARGE)} with up to 9 of each, 11 layers or width 8: every entry of every parameter; saving and restoring by state dict and "
            "whole; one optimiser step; all "
            f"sequences of train/eval switches up to length {3 if q else 5}; all noise draws from {NOISE} for up to "
            f"{4 if q else 6} latent values x 6 encodings; fitted models of {6 if q else 24} settings")


def cases(tier):
    q = tier == "quick"
    out = []
    for a in archs(tier) + LARGE:
        out += [["grad", *a], ["save", *a], ["modes", *a, 3 if q else 5]]
    for rows in (1, 2, 3):
        for l in (1, 2, 3):
            if rows * l <= (4 if q else 6):
                out.append(["noise", rows, l])
    for h in (0, 1, 2, 3):
        for w in (1, 2, 3):
            if not q or (h, w) in ((0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
                out.append(["fitted", h, w, 2])
                if not q:
                    out.append(["fitted", h, w, 4])
    return out


def forward(model, x, r, what="forward"):
    ok, res = r.call(model, x, _what=what)
    if not ok:
        return None
    if len(res) != 4:
        r.fail(f"{what} returned {len(res)} values")
        return None
    return res


def leaves(outs):
    """tensors the outputs' autograd graph starts from"""
    seen, stack, found = set(), [o.grad_fn for o in outs if o.grad_fn is not None], {}
    while stack:
        f = stack.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        if hasattr(f, "variable"):
            found[id(f.variable)] = f.variable
        stack += [g for g, _ in f.next_functions]
    return found


def run(case, r):
    kind = case[0]
    globals()["run_" + kind](case, r)


def value(outs):
    """a generic scalar of all four outputs"""
    return sum(((0.37 + 0.1 * k + torch.arange(o.numel()).view(o.shape) * 0.171) * o).sum()
               for k, o in enumerate(outs))


def run_grad(case, r):
    _, l, m, h, w = case
    ok, model = r.call(_nets.build, vae, l, m, h, w, _what="constructing the model")
    if not ok:
        return
    x = _nets.inputs(2, m)
    params = dict(model.named_parameters())
    for mode in (True, False):
        model.train(mode)
        torch.manual_seed(3)
        outs = forward(model, x, r)
        if outs is None:
            return
        extra = [tuple(v.shape) for i, v in leaves(outs).items() if i not in {id(p) for p in params.values()}]
        if extra:
            return r.fail(f"outputs depend on trainable tensors of shapes {extra} that are not parameters", case)
        model.zero_grad()
        if not any(o.requires_grad for o in outs):
            return r.fail("outputs don't depend on any trainable parameter", case)
        value(outs).backward()
        dec = {id(p): n for n, p in model.decoder.named_parameters()}
        for name, p in params.items():
            flat = p.data.view(-1)
            g = torch.zeros_like(p).view(-1) if p.grad is None else p.grad.reshape(-1)
            for e in range(flat.numel()):
                old = flat[e].item()
                vals = []
                with torch.no_grad():
                    for d in (1e-4, -1e-4):
                        flat[e] = old + d
                        torch.manual_seed(3)
                        vals.append(value(model(x)).item())
                flat[e] = old
                r.step(2)
                num = (vals[0] - vals[1]) / 2e-4
                idx = tuple(int(i) for i in np.unravel_index(e, tuple(p.shape)))
                r.state((l, m, h, w, name, e))
                if abs(num - g[e].item()) > 1e-4 * max(1, abs(num)):
                    return r.fail(f"{name}{idx} {'in training mode' if mode else ''}: gradient {g[e].item():.6g} but the "
                                  f"output changes at rate {num:.6g}", case)
                if abs(num) > 1e-3 and not p.requires_grad:
                    return r.fail(f"{name}{idx} influences the output but isn't trained", case)
                if ".weight" in name and id(p) in dec and len(idx) == 2:
                    if tuple(p.shape) == (m * w, m * w) and "hidden" in name:
                        masked = idx[0] // w != idx[1] // w
                    elif tuple(p.shape) == (m, m * w) and "output" in name:
                        masked = idx[0] != idx[1] // w
                    else:
                        masked = False
                    if masked and g[e].item() != 0:
                        return r.fail(f"masked connection {name}{idx} gets gradient {g[e].item():.6g}", case)
            r.trace(("grad", name.rsplit(".", 1)[-1]), flat.numel())
    # nothing influences the output except parameters: filling them all alike makes two
    # differently initialised models equal
    other = _nets.build(vae, l, m, h, w, 1)
    with torch.no_grad():
        for (n1, p1), (n2, p2) in zip(model.named_parameters(), other.named_parameters()):
            p2.copy_(p1)
    model.eval(), other.eval()
    a, b = forward(model, x, r), forward(other, x, r)
    if a is None or b is None:
        return
    if any(not torch.equal(s, t) for s, t in zip(a, b)):
        r.fail("two models with equal parameters differ", case)


def run_save(case, r):
    _, l, m, h, w = case
    ok, model = r.call(_nets.build, vae, l, m, h, w, _what="constructing the model")
    if not ok:
        return
    x = _nets.inputs(3, m)
    model.eval()
    want = forward(model, x, r)
    if want is None:
        return

    def state_dict():
        buf = io.BytesIO()
        torch.save(model.state_dict(), buf)
        buf.seek(0)
        new = _nets.build(vae, l, m, h, w, 7)
        new.load_state_dict(torch.load(buf))
        return new

    def whole():
        buf = io.BytesIO()
        torch.save(model, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False)

    def trained():
        """train every exposed parameter one step, save, restore: again equal"""
        new = copy.deepcopy(model)
        before = {n: p.detach().clone() for n, p in new.named_parameters()}
        opt = torch.optim.SGD(new.parameters(), lr=1e-2)
        new.train()
        value(new(x)).backward()
        grads = {n: p.grad is not None and bool((p.grad != 0).any()) for n, p in new.named_parameters()}
        opt.step()
        still = [n for n, p in new.named_parameters() if not grads[n] or torch.equal(p, before[n])]
        if still:
            raise AssertionError(f"one step of training left {still} unchanged")
        new.eval()
        buf = io.BytesIO()
        torch.save(new.state_dict(), buf)
        buf.seek(0)
        fresh = _nets.build(vae, l, m, h, w, 8).eval()
        fresh.load_state_dict(torch.load(buf))
        if any(not torch.equal(a, b) for a, b in zip(fresh(x), new(x))):
            raise AssertionError("restoring the state of a trained model gives other outputs")
        return model

    for fn in (state_dict, whole, trained):
        ok, new = r.call(fn, _what=f"saving and restoring ({fn.__name__})")
        if not ok:
            return
        new.eval()
        got = forward(new, x, r)
        if got is None:
            return
        if any(not torch.equal(a, b) for a, b in zip(want, got)):
            return r.fail(f"the restored model ({fn.__name__}) gives other outputs", case)
        r.state((case[1:], fn.__name__))
        r.trace(fn.__name__)
    n = sum(p.numel() for p in model.parameters())
    enc = m * m * 2 + m * 2 + 2 * (m * l + l)
    dec = 2 * (m * w * l + m * w + h * ((m * w) ** 2 + m * w) + m * m * w + m)
    r.note("parameter count as for dense masked layers" if n == enc + dec else "other parameter count")


class Captured:
    """the encoder's answers replaced, the decoder's input recorded"""

    def __init__(self, model, mu=None, logvar=None):
        self.model, self.mu, self.logvar = model, mu, logvar
        self.z = []

    def __enter__(self):
        self.h = [self.model.decoder.register_forward_pre_hook(lambda _, a: self.z.append(a[0].detach().clone()))]
        if self.mu is not None:
            self.h.append(self.model.encoder.register_forward_hook(lambda *_: (self.mu, self.logvar)))
        return self

    def __exit__(self, *_):
        for h in self.h:
            h.remove()


def run_modes(case, r):
    _, l, m, h, w, n = case
    ok, model = r.call(_nets.build, vae, l, m, h, w, _what="constructing the model")
    if not ok:
        return
    x = _nets.inputs(2, m)
    for k in range(0, n + 1):
        for seq in itertools.product((True, False), repeat=k):
            mod = copy.deepcopy(model)
            for t in seq:
                mod.train() if t else mod.eval()
                forward(mod, x, r)
            training = seq[-1] if seq else True  # torch modules start in training mode
            res = []
            with Captured(mod) as c:
                for s in (1, 2):
                    torch.manual_seed(s)
                    res.append(forward(mod, x, r))
            if None in res or len(c.z) != 2:
                return r.fail(f"decoder called {len(c.z)} times in 2 forward passes", case)
            mu = res[0][2]
            same = torch.equal(c.z[0], c.z[1]) and all(torch.equal(a, b) for a, b in zip(*res))
            r.state((case[1:], seq))
            r.trace(("modes", training))
            if training and (same or torch.equal(c.z[0], mu)):
                return r.fail(f"latents aren't drawn in training mode (after {seq})", case)
            if not training and (not same or not torch.equal(c.z[0], mu)):
                return r.fail(f"latents aren't the mean in evaluation mode (after {seq})", case)


def run_noise(case, r):
    _, rows, l = case
    m = 2
    ok, model = r.call(_nets.build, vae, l, m, 1, 1, _what="constructing the model")
    if not ok:
        return
    x = _nets.inputs(rows, m)
    enc = []
    for a, b in ((0.0, 0.0), (1.5, 0.0), (0.0, 2.0), (-2.0, -4.0), (3.0, 1.0), (0.5, -30.0)):
        ramp = torch.arange(rows * l, dtype=torch.float64).view(rows, l)
        enc.append((a + 0.25 * ramp * (a != 0), b * (1 - 0.125 * ramp)))
    used = [0]

    def answer(shape, e):
        used[0] += 1
        return torch.as_tensor(np.resize(np.asarray(e, float), tuple(shape)))

    for mode in (True, False):
        model.train(mode)
        for e in itertools.product(NOISE, repeat=rows * l):
            for mu, lv in enc:
                used[0] = 0

                def normal_(self, mean=0.0, std=1.0, **k):
                    return self.copy_(answer(self.shape, e) * std + mean)

                def randn_like(t, **k):
                    return answer(t.shape, e)

                def randn(*s, **k):
                    return answer(s[0] if len(s) == 1 and not isinstance(s[0], int) else s, e)

                def normal(mean, std=1.0, size=None, **k):
                    shape = size if size is not None else torch.broadcast_shapes(
                        *[t.shape for t in (mean, std) if isinstance(t, torch.Tensor)])
                    return answer(shape, e) * std + mean

                with patched(("normal_", normal_, torch.Tensor), ("randn_like", randn_like, torch),
                             ("randn", randn, torch), ("normal", normal, torch)):
                    if "normal_" not in vars(torch.Tensor):  # inherited: set on the subclass
                        torch.Tensor.normal_ = normal_
                        try:
                            with Captured(model, mu, lv) as c:
                                res = forward(model, x, r)
                        finally:
                            del torch.Tensor.normal_
                    else:
                        with Captured(model, mu, lv) as c:
                            res = forward(model, x, r)
                if res is None:
                    return
                z = c.z[0]
                eps = torch.as_tensor(np.asarray(e, float)).view(rows, l)
                r.state((rows, l, e, mode, mu.sum().item(), lv.sum().item()))
                r.trace(("noise", mode))
                if not (torch.equal(res[2], mu) and torch.equal(res[3], lv)):
                    return r.fail("forward doesn't return the encoded mean and log-variance", case)
                if not mode:
                    if used[0] or not torch.equal(z, mu):
                        return r.fail("noise is used in evaluation mode", case)
                    continue
                if not used[0]:
                    return fallback(case, r, model, x, enc)
                want = mu + torch.exp(lv / 2) * eps
                if not torch.allclose(z, want, rtol=1e-9, atol=1e-12):
                    return r.fail(f"encoded mean {mu.tolist()}, log-variance {lv.tolist()}, noise {e}: "
                                  f"latents {z.tolist()}, expected {want.tolist()}", case)


def fallback(case, r, model, x, enc):
    """the noise can't be enumerated: latents must be one fixed standard normal draw per
    seed, scaled and shifted"""
    r.note("latents drawn by other means than the enumerated ones")
    for seed in range(50):
        ref = None
        for mu, lv in enc[:-1]:
            torch.manual_seed(seed)
            with Captured(model, mu, lv) as c:
                if forward(model, x, r) is None:
                    return
            e = (c.z[0] - mu) / torch.exp(lv / 2)
            if ref is None:
                ref = e
            elif not torch.allclose(ref, e, atol=1e-6):
                return r.fail(f"latents aren't mean + deviation * noise: {ref.tolist()} vs {e.tolist()}", case)
    n = 20000
    torch.manual_seed(0)
    mu, lv = torch.zeros(n, enc[0][0].shape[1]).double(), torch.zeros(n, enc[0][0].shape[1]).double()
    with Captured(model, mu, lv) as c:
        forward(model, torch.zeros(n, x.shape[1]).double(), r)
    z = c.z[0]
    if abs(z.mean()) > 0.05 or abs(z.std() - 1) > 0.05:
        r.fail(f"noise has mean {z.mean():.3f} and deviation {z.std():.3f}", case)


def run_fitted(case, r):
    """the model NCFA trains has the architecture asked for, all of it is in the optimiser,
    and after training every parameter has moved"""
    _, h, w, m = case
    g = np.random.default_rng(5)
    data = g.standard_normal((12, m))
    ok, ncfa = r.call(models.NeuroCausalFactorAnalysis, path=f"ncfa{os.getpid()}/", _what="constructing")
    if not ok:
        return
    ncfa.hyperparams.update(num_epochs=2, batch_size=4, num_hidden_layers=h, width_per_meas=w)
    start, opts = {}, []

    def pre(mod, args):
        if isinstance(mod, vae.VariationalAutoencoder) and not start:
            start.update({n: p.detach().clone() for n, p in mod.named_parameters()})

    from torch.optim.optimizer import register_optimizer_step_pre_hook as hook

    rm = hook(lambda o, *_: opts.append({id(p) for grp in o.param_groups for p in grp["params"]}))
    try:
        with _nets.module_hooks(pre):
            ok, _ = r.call(ncfa.fit, data, _what="fit")
    finally:
        rm.remove()
    if not ok:
        return
    mod = ncfa.parameters.vae
    now = dict(mod.named_parameters())
    r.state(("fitted", h, w, m))
    r.trace("fitted")
    if not opts or opts[-1] != {id(p) for p in now.values()}:
        return r.fail("the optimiser doesn't hold exactly the model's parameters", case)
    for n, p in now.items():
        if torch.equal(p, start[n]):
            return r.fail(f"training left {n} unchanged", case)
    ref = _nets.build(vae, m, m, h, w)
    if {k: tuple(v.shape) for k, v in now.items()} != {k: tuple(v.shape) for k, v in ref.named_parameters()}:
        return r.fail(f"fitting trained another architecture than {h} hidden layers of width {w}", case)
    p = ncfa.parameters.weights
    if not np.array_equal(p, mod.decoder.cov_linear_fulcon.weight.detach().numpy().T):
        r.fail("the weights reported aren't the fitted model's loadings", case)
