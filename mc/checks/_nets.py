"""Small deep models with generic weights; captured forward passes of deep models."""
import contextlib

import numpy as np
import torch


def fill(model, k):
    """generic weights, away from zero and from saturation, different for different k"""
    g = np.random.default_rng(1000 + k)
    with torch.no_grad():
        for p in model.parameters():
            v = g.uniform(0.4, 1.3, tuple(p.shape)) * g.choice([-1.0, 1.0], tuple(p.shape))
            p.copy_(torch.as_tensor(v))
    return model


def build(vae, latents, meas, layers, width, k=0):
    with torch.random.fork_rng():
        torch.manual_seed(k)
        model = vae.VariationalAutoencoder(latents, meas, layers, width)
    return fill(model.double(), k)


def inputs(rows, cols, k=0):
    return torch.as_tensor(np.random.default_rng(50 + k).uniform(-1.5, 1.5, (rows, cols)))


@contextlib.contextmanager
def module_hooks(pre=None, post=None):
    """called around every call of every torch module, whoever made it"""
    from torch.nn.modules import module as m

    hooks = []
    if pre is not None:
        hooks.append(m.register_module_forward_pre_hook(pre))
    if post is not None:
        hooks.append(m.register_module_forward_hook(post))
    try:
        yield
    finally:
        for h in hooks:
            h.remove()
