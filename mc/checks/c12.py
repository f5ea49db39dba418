"""C12: moments of GaussianMCM.sample, exactly: the generator answers requests for standard
normals with the columns of a two-level orthogonal design (every pair of columns takes all
four sign combinations equally often), so the sample's mean and covariance over the design
are exactly those of the model's linear map."""
import itertools

import numpy as np

import load

ID = "C12"
TIMEOUT = 60
N = 128
ASSUMPTIONS = [
    "sample() draws standard normals through the generator's normal, standard_normal or "
    "multivariate_normal; if it draws in another layout, moments are compared statistically "
    "on 400000 draws of a fixed generator instead",
]


class Design(np.random.Generator):
    def __init__(self, n=N):
        super().__init__(np.random.PCG64(3))
        self.n = n
        self._cols = list(range(1, n))
        self.opaque = 0

    def _z(self, n, k):
        if n != self.n or len(self._cols) < k:
            self.opaque += 1
            return super().standard_normal((n, k))
        use, self._cols = self._cols[:k], self._cols[k:]
        v = np.arange(n)[:, None] & np.array(use)[None]
        for b in (32, 16, 8, 4, 2, 1):
            v ^= v >> b
        return 1.0 - 2.0 * (v & 1)

    def standard_normal(self, size=None, dtype=float, out=None):
        shape = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        if out is not None:
            shape = out.shape
        if len(shape) == 2 and shape[0] == self.n:
            z = self._z(*shape)
        elif len(shape) == 2 and shape[1] == self.n:
            z = self._z(self.n, shape[0]).T
        elif shape == (self.n,):
            z = self._z(self.n, 1)[:, 0]
        else:
            self.opaque += 1
            z = super().standard_normal(shape)
        if out is not None:
            out[...] = z
        return z

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape
        return loc + np.asarray(scale) * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        if cov.shape != (len(mean), len(mean)):
            raise ValueError("mean and cov must have same length")
        w, v = np.linalg.eigh(cov)
        n = size if np.ndim(size) == 0 else int(np.prod(size))
        if size is None or np.ndim(size) and len(size) != 1:
            self.opaque += 1
            return super().multivariate_normal(mean, cov, size)
        return mean + self._z(int(n), len(mean)) @ (v * np.sqrt(w.clip(0))).T


class Impulse(np.random.Generator):
    """Answers the k-th normal asked for with z[k]: recovers the sample as a map of the draws."""

    def __init__(self, z=None):
        super().__init__(np.random.PCG64(3))
        self.z, self.k = z, 0

    def _take(self, shape):
        n = int(np.prod(shape))
        z = np.zeros(n) if self.z is None else self.z[self.k:self.k + n]
        self.k += n
        return z.reshape(shape).copy()

    def standard_normal(self, size=None, dtype=float, out=None):
        shape = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        z = self._take(shape if out is None else out.shape)
        if out is not None:
            out[...] = z
        return float(z) if out is None and size is None else z

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(loc, scale).shape if size is None else size
        return loc + np.asarray(scale) * self.standard_normal(shape)

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        if cov.shape != (len(mean), len(mean)):
            raise ValueError("mean and cov must have same length")
        shape = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        w, v = np.linalg.eigh(cov)
        return mean + self._take(shape + mean.shape) @ (v * np.sqrt(w.clip(0))).T


def impulses(s, w, var, mu, want, n, what, r, case):
    """The n x m sample is an affine map of independent standard normals; its rows must be
    independent, each with the model's mean and covariance: exactly A A' = I (x) C."""
    def run(z):
        rng = Impulse(z)
        ok, x = r.call(build(s, w, var, mu, rng).sample, n, _case=case, _what=f"sample({n}) ({what})")
        return (np.array(x, float), rng.k) if ok else (None, 0)

    b, total = run(None)
    if b is None or b.shape != (n, s.shape[1]) or not total:
        return
    a = np.empty((b.size, total))
    for t in range(total):
        x, k = run(np.eye(total)[t])
        if x is None:
            return
        if k != total:
            return r.note("number of draws depends on the draws: no exact map")
        a[:, t] = (x - b).ravel()
        r.step()
    z = (np.arange(total) * 7 % 5 - 1.8)
    x, _ = run(z)
    if x is None:
        return
    if np.abs((x - b).ravel() - a @ z).max() > 1e-7 * (1 + np.abs(a).sum(1).max()):
        r.note("the sample is no affine map of its draws: statistical comparison")
        return repeated(s, w, var, mu, want, n, what, r, case)
    if np.abs(b - mu).max() > 1e-9 * (1 + np.abs(mu).max()):
        r.fail(f"sample({n}) has means {b.round(4).tolist()} ({what})", case)
    got, full = a @ a.T, np.kron(np.eye(n), want)
    if np.abs(got - full).max() > 1e-8 * (1 + np.abs(want).max()):
        r.fail(f"over all draws, the {n} rows of sample({n}) have joint covariance "
               f"{got.round(4).tolist()}, should be {n} independent blocks {want.tolist()} ({what})", case)


def repeated(s, w, var, mu, want, n, what, r, case):
    if n == 2 and not getattr(r, "_repeated", 0) > 10:
        r._repeated = getattr(r, "_repeated", 0) + 1
        g = build(s, w, var, mu, np.random.default_rng(0))
        x = np.array([np.asarray(g.sample(2)).ravel() for _ in range(4000)])
        full, sd = np.kron(np.eye(2), want), np.sqrt(1 + want.diagonal().max())
        if not (np.abs(x.mean(0) - np.tile(mu, 2)).max() < 0.12 * sd
                and np.abs(np.cov(x, rowvar=False) - full).max() < 0.15 * sd ** 2):
            r.fail(f"in 4000 repeats, the rows of sample(2) have joint covariance "
                   f"{np.cov(x, rowvar=False).round(2).tolist()}, mean {x.mean(0).round(2).tolist()}, "
                   f"should be independent with {want.tolist()} ({what})", case)


def prepare(tier):
    global models
    models = load.full("models")


WEIGHTS = (1.0, -2.0, 0.5)


def BOUND(tier):
    q = tier == "quick"
    return (f"all structures with 1-{2 if q else 3} latents and 1-3 measurements (weights cycling through all "
            f"assignments of {WEIGHTS} for at most {3 if q else 5} edges, else 3 assignments), "
            "error variances from {0, 1, 0.25, 4} and means from {0, 3, -1.5} in all combinations for "
            "1 and 2 measurements, in 6 combinations otherwise; sample sizes 1, 2, 5 and "
            f"{N}; (latents, measurements, sample size) {LARGE} in two patterns; for sizes 1-4 the exact joint law of all rows (impulse response to every draw); default and explicit generators")


def cases(tier):
    out = []
    for l in (1, 2) if tier == "quick" else (1, 2, 3):
        for m in (1, 2, 3):
            for mask in range(1, 2 ** (l * m)):
                out.append([l, m, mask, 3 if tier == "quick" else 5])
    out += [[3, 5, mask, 1] for mask in (0b11000_01110_00011, 0b10101_01010_11111, 0b11100_00111_10001)]
    out += [["large", l, m, n, k] for l, m, n in LARGE for k in (0, 1)]
    return out


LARGE = ((1, 1, 1024), (2, 3, 16384), (3, 5, 131072), (1, 20, 4096), (12, 20, 1024), (30, 50, 512), (40, 130, 256))


def run(case, r):
    if case[0] == "large":
        _, l, m, n, k = case
        i, j = np.arange(l)[:, None], np.arange(m)[None]
        s = (i * 5 + j * 3 + i * j) % (2 + k * 2) == 0
        w = [WEIGHTS[a % 3] for a in range(int(s.sum()))]
        var = np.array([(0.0, 1.0, 0.25, 4.0)[(a + k) % 4] for a in range(m)])
        mu = np.array([(0.0, 3.0, -1.5)[(a + k) % 3] for a in range(m)])
        check(s, w, var, mu, 11, r, case, n)
        return real(s, w, var, mu, min(1000 + 11 * n // 3, 30000), r, case)
    l, m, mask, full = case[:4]
    s = np.array([[mask >> (i * m + j) & 1 for j in range(m)] for i in range(l)], bool).reshape(l, m)
    k = int(s.sum())
    ws = list(itertools.product(WEIGHTS, repeat=k)) if k <= full else [
        tuple(WEIGHTS[(i * a + a) % 3] for i in range(k)) for a in (1, 2, 3)]
    vs = list(itertools.product(itertools.product((0.0, 1.0, 0.25, 4.0), repeat=m),
                                itertools.product((0.0, 3.0, -1.5), repeat=m)))
    step = 1 if m == 1 else 7 if m == 2 else max(1, len(vs) // 6)
    n = 0
    for i, w in enumerate(ws):
        for var, mu in vs[(i % step)::step]:
            n += 1
            check(s, w, np.array(var), np.array(mu), n, r, case)


def real(s, w, var, mu, n, r, case):
    """rows of one sample of a real generator never repeat"""
    ok, x = r.call(build(s, w, var, mu, np.random.default_rng(4)).sample, n, _case=case,
                   _what=f"sample({n}) of {len(s)} latents, {len(var)} measurements")
    if ok and s.any() and len(np.unique(np.asarray(x)[:, s.any(0)], axis=0)) < n:
        r.fail(f"sample({n}) of {len(s)} latents, {len(var)} measurements repeats rows", case)


def build(s, w, var, mu, rng):
    kw = {} if rng is None else {"rng": rng}
    g = models.GaussianMCM(biadj=s.copy(), **kw)
    p = g.parameters
    p.biadj_weights = np.zeros(s.shape)
    p.biadj_weights[s] = w
    p.error_variances, p.error_means = var.copy(), mu.copy()
    return g


def check(s, w, var, mu, i, r, case, N=N):
    what = f"weights {list(w)}, variances {var.tolist()}, means {mu.tolist()}"
    if len(w) > 12:
        what = f"{len(s)} latents, {len(var)} measurements"
    rng = Design(N)
    g = build(s, w, var, mu, rng)
    ok, x = r.call(g.sample, N, _case=case, _what=f"sample ({what})")
    if not ok:
        return
    r.state((N, s.shape, s.tobytes(), tuple(w), var.tobytes(), mu.tobytes()))
    wm = np.zeros(s.shape)
    wm[s] = w
    want = wm.T @ wm + np.diag(var)
    x = np.asarray(x)
    if x.shape != (N, s.shape[1]):
        return r.fail(f"sample({N}) has shape {x.shape} ({what})", case)
    p = g.parameters
    if not (np.array_equal(p.biadj_weights, wm) and np.array_equal(p.error_variances, var)
            and np.array_equal(p.error_means, mu) and np.array_equal(g.biadj, s)):
        r.fail(f"sampling changed the model ({what})", case)
    tol = 1e-8
    if rng.opaque:
        r.note("layout of draws unknown: statistical comparison")
        if i % 10 != 1:
            return
        big = s.size > 30 or N > 128
        x = build(s, w, var, mu, np.random.default_rng(0)).sample(40000 if big else 400000)
        tol = 0.06 if big else 0.02
    d = np.abs(x.mean(0) - mu).max()
    if d > tol * (1 + np.sqrt(want.diagonal().max())):
        r.fail(f"mean is {x.mean(0).round(4).tolist()} ({what})", case)
    c = np.atleast_2d(np.cov(x, rowvar=False, bias=True))
    if np.abs(c - want).max() > tol * (1 + np.abs(want).max()):
        r.fail(f"covariance is {c.round(4).tolist()}, should be {want.tolist()} ({what})", case)
    r.trace(tuple(np.asarray(want).round(3).ravel().tolist()[:4]))
    if s.size > 60 or N > 128:
        return
    for n in (1, 2, 3, 4) if i % 5 == 1 else (2,):
        impulses(s, w, var, mu, want, n, what, r, case)
    if i % 5 == 1:
        for n in (1, 2, 5):
            for rng in (None, np.random.default_rng(1)):
                ok, y = r.call(build(s, w, var, mu, rng).sample, n, _case=case,
                               _what=f"sample({n}) ({what})")
                if ok and (np.asarray(y).shape != (n, s.shape[1]) or not np.isfinite(y).all()):
                    r.fail(f"sample({n}) has shape {np.asarray(y).shape} ({what})", case)
                elif ok and (var == 0).any() and not wm[:, var == 0].any():
                    j = (var == 0) & ~wm.any(0)
                    if j.any() and np.abs(y[:, j] - mu[j]).max() > 1e-9:
                        r.fail(f"a constant measurement varies ({what})", case)
    if i == 1:
        r.sample({"structure": s.astype(int).tolist(), "model": what, "covariance": c.round(6).tolist()})
