"""A numpy Generator whose every outcome is a choice of the explorer."""
from math import factorial

import numpy as np

UNIT = (0.0, 0.5, 1 - 2.0 ** -53)  # alphabet for draws from [0, 1)
NORMAL = (0.0, 1.0, -2.5)


MANY = 5000  # more outcomes of one draw than this are thinned out (`coarse`)


def subset(chooser, n):
    """a choice of some of n positions: all subsets, or for large n patterns"""
    if n <= 15:
        return [i for i in range(n) if chooser.choose(2)]
    kind = chooser.choose(5)
    if kind < 2:
        return list(range(n)) if kind else []
    if kind == 2:
        return list(range(chooser.choose(2), n, 2))
    i = chooser.choose(n)
    return [i] if kind == 3 else [k for k in range(n) if k != i]


class ChoiceRng(np.random.Generator):
    """`chooser` decides what is drawn. Orders of equal elements aren't distinguished.

    With `thin`, the outcomes of large draws (in other layouts than medil's own) are thinned out; `coarse` counts
    them, and `arrays` the draws of several numbers from [0, 1): from then on not every result need
    be reachable."""

    def __init__(self, chooser, thin=False):
        super().__init__(np.random.PCG64(0))
        self._c = chooser
        self.many = MANY if thin else float("inf")
        self.opaque = 0
        self.coarse = 0
        self.arrays = 0

    def complete(self):
        """every outcome of the draws so far is enumerated, up to what UNIT stands for"""
        return not (self.opaque or self.coarse or self.arrays)

    def _each(self, size, alphabet):
        if size is None:
            return alphabet[self._c.choose(len(alphabet))]
        size = (size,) if np.ndim(size) == 0 else tuple(size)
        n = int(np.prod(size))
        return np.array([alphabet[self._c.choose(len(alphabet))] for _ in range(n)]).reshape(size)

    def _order(self, labels):
        """choose an arrangement of the labels (lazily: position by position)"""
        left = {}
        for i, l in enumerate(labels):
            left.setdefault(l, []).append(i)
        total = factorial(len(labels))
        for v in left.values():
            total //= factorial(len(v))
        if total > self.many:
            # some go first, or the inverse of such an order
            self.coarse += 1
            first = subset(self._c, len(labels))
            order = first + [i for i in range(len(labels)) if i not in set(first)]
            return list(np.argsort(order)) if self._c.choose(2) else order
        order = []
        while left:
            ks = list(left)
            k = ks[self._c.choose(len(ks)) if len(ks) > 1 else 0]
            order.append(left[k].pop(0))
            if not left[k]:
                del left[k]
        return order

    # ---- numbers
    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        vals = [np.dtype(dtype).type(v) for v in range(int(low), int(high) + bool(endpoint))]
        if not vals:
            raise ValueError("low >= high")
        out = self._each(size, vals)
        return out if size is None else out.astype(dtype)

    def random(self, size=None, dtype=np.float64, out=None):
        shape = size if out is None else out.shape
        n = 1 if shape is None else int(np.prod(shape))
        if shape is not None and n > 1:
            self.arrays += 1
        if 3.0 ** min(n, 600) > self.many:  # distinct values, some below a half
            self.coarse += 1
            x = 0.5 + np.arange(n) / (2 * n + 2)
            low = subset(self._c, n)
            x[low] -= 0.5
            x = x.reshape(shape)
        else:
            x = self._each(shape, UNIT)
        if out is not None:
            out[...] = x
            return out
        return x if size is None else x.astype(dtype)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.random(size)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._each(size if out is None else out.shape, NORMAL)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def binomial(self, n, p, size=None):
        if np.ndim(n) or np.ndim(p):
            self.opaque += 1
            return super().binomial(n, p, size)
        vals = [v for v in range(n + 1) if (p > 0 or v == 0) and (p < 1 or v == n)]
        return self._each(size, vals)

    # ---- orders
    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            x = np.arange(x)
        x = np.asarray(x)
        m = np.moveaxis(x, axis, 0)
        o = self._order([m[i].tobytes() for i in range(len(m))])
        return np.take(x, o, axis=axis)

    def shuffle(self, x, axis=0):
        if isinstance(x, np.ndarray):
            x[...] = self.permutation(x.copy(), axis)
        else:
            o = self._order(list(range(len(x))))
            x[:] = [x[i] for i in o]

    def permuted(self, x, *, axis=None, out=None):
        x = np.asarray(x)
        if axis is None:
            res = self.permutation(x.ravel()).reshape(x.shape)
        else:
            m = np.moveaxis(x, axis, -1).copy()
            flat = m.reshape(-1, m.shape[-1])
            for i in range(len(flat)):
                flat[i] = self.permutation(flat[i])
            res = np.moveaxis(flat.reshape(m.shape), -1, axis).copy()
        if out is not None:
            out[...] = res
            return out
        return res

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        a = np.asarray(a)
        idx = [i for i in range(a.shape[axis]) if p is None or p[i] > 0]
        if size is None:
            return np.take(a, idx[self._c.choose(len(idx))], axis=axis)
        if replace:
            return np.take(a, self._each(size, idx).astype(int), axis=axis)
        n = int(np.prod(size))
        if n > len(idx):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        if factorial(len(idx)) // factorial(len(idx) - n) > self.many:
            # sets, not orders
            self.coarse += 1
            picked, need = [], n
            for k, i in enumerate(idx):
                rest = len(idx) - k
                if need and (need == rest or self._c.choose(2)):
                    picked.append(i)
                    need -= 1
            return np.take(a, np.array(picked, int).reshape(size), axis=axis)
        picked = []
        for _ in range(n):
            picked.append(idx.pop(self._c.choose(len(idx))))
        return np.take(a, np.array(picked, int).reshape(size), axis=axis)
