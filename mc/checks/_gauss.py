"""Datasets with an exactly prescribed sample covariance; structures of small models."""
import itertools

import numpy as np
import ref


def hadamard(n):
    h = np.array([[1.0]])
    while len(h) < n:
        h = np.block([[h, h], [h, -h]])
    return h


def white(n, m):
    """n x m, column means exactly 0, sample covariance (ddof 1) the identity"""
    i, j = np.arange(n)[:, None], np.arange(1, m + 1)[None]
    parity = sum((i & j) >> b & 1 for b in range(int(m + 1).bit_length()))
    return np.where(parity % 2, -1.0, 1.0) * np.sqrt((n - 1) / n)


def dataset(cov, mean, n=16):
    """sample mean and sample covariance as given (to rounding)"""
    w, v = np.linalg.eigh(np.asarray(cov, float))
    return white(n, len(cov)) @ (v * np.sqrt(w.clip(0))).T + np.asarray(mean, float)


def antichains(m, lmax):
    """structures (lists of row bitmasks) in which every measurement has a parent and no
    latent's children are among another's, one per order of latents"""
    subsets = range(1, 1 << m)
    for l in range(1, lmax + 1):
        for rows in itertools.combinations(subsets, l):
            if any(a & b == a for a in rows for b in rows if a is not b and a != b):
                continue
            u = 0
            for a in rows:
                u |= a
            if u == (1 << m) - 1:
                yield rows


def minimal(m, lmax):
    """antichains that are minimum edge clique covers of the graphs they generate"""
    for rows in antichains(m, lmax):
        adj = [0] * m
        for x in rows:
            for v in ref.bits(x):
                adj[v] |= x & ~(1 << v)
        if ref.ecc_number(tuple(adj)) == len(rows) and all(ref.is_clique(tuple(adj), x) for x in rows):
            yield rows


def matrix(rows, m):
    return np.array([[x >> j & 1 for j in range(m)] for x in rows], bool)
