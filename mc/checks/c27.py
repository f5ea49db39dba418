"""C27: histories of fitting and sampling one penalised estimator, and its reported optimum
over a grid of datasets, penalties and starting points."""
import itertools

import numpy as np

import load
from checks import _gauss as G
from checks import c12

ID = "C27"
TIMEOUT = 300
METHODS = ("mle", "lse")
PEN = (0.0, 0.1, 1.0)
TALL = (512, 2048, 16384, 65536)
OPS = ("Ma", "Mb", "La", "Lb", "sm", "sl", "fu", "su")
ASSUMPTIONS = [
    "objectives are compared to 1e-6 relative; whether the optimiser found the global optimum "
    "is not judged", "sampling draws standard normals through the generator's normal, "
    "standard_normal or multivariate_normal (else moments are compared statistically)",
]
COVS = (
    [[1.0]], [[4.0]],
    [[1, 0], [0, 1]], [[2, 1], [1, 2]], [[1, -0.9], [-0.9, 1]], [[9, 1], [1, 0.5]],
    [[1, 0.5, 0], [0.5, 2, 0.5], [0, 0.5, 1]], [[3, 2, 2], [2, 3, 2], [2, 2, 3]], [[1, -0.6, 0.3], [-0.6, 1, -0.4], [0.3, -0.4, 4]],
)


def prepare(tier):
    global models
    models = load.full("models")
    c12.prepare(tier)


def BOUND(tier):
    q = tier == "quick"
    return (f"all histories of length <= {3 if q else 4} of fitting two datasets by two methods, sampling by either, and fitting or "
            f"sampling by an unknown method; {len(COVS)} covariances of 1-3 measurements x lambda, mu in {PEN} x 2 methods x "
            f"with and without the one-pure-child bound x {1 if q else 4} starting points; up to {TALL[-1]} observations")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 4 if q else 5):
        for h in itertools.product(OPS, repeat=n):
            out.append(["history", list(h)])
    for i in range(len(COVS)):
        for lam, mu in itertools.product(PEN, PEN):
            for meth in METHODS:
                for one in (True, False):
                    if one or len(COVS[i]) > 1:
                        out.append(["grid", i, lam, mu, meth, one, 1 if q else 4])
    for n in TALL:
        out += [["grid", i, 0.1, 1.0, meth, True, 2, n] for i in (3, 6) for meth in METHODS]
    for meth in METHODS + ("LSE", "", "bfgs", None, "mle ", 0):
        out.append(["reject", meth])
    return out


def objective(meth, w, d, s, lam, mu):
    """the penalised loss by its definition; d: diagonal matrix"""
    sigma = w.T @ w + d
    if meth == "lse":
        v = ((s - sigma) ** 2).sum()
    else:
        v = np.trace(s @ np.linalg.inv(sigma)) + np.linalg.slogdet(sigma)[1]
    return v + lam * np.linalg.svd(w, compute_uv=False).sum() + mu * np.abs(w).sum()


def close(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def cov_of(x):
    return np.atleast_2d(np.cov(x, rowvar=False))


def judge_fit(dm, meth, x, other, lam, mu, one, r, case, desc):
    m = x.shape[1]
    fun = float(dm.result.fun)
    fits = {"hat": (dm.W_hat, dm.D_hat), meth: (getattr(dm, "W_hat_" + meth, None), getattr(dm, "D_hat_" + meth, None))}
    for k, (w, d) in fits.items():
        if w is None or np.shape(w) != (m if one else m * m // 4, m) or np.shape(d) != (m, m):
            return r.fail(f"{desc}: shapes of the fitted weights and variances {np.shape(w)}, {np.shape(d)}", case)
        if not np.array_equal(d, np.diag(np.diag(d))) or (np.diag(d) < 0).any():
            return r.fail(f"{desc}: error variances {np.asarray(d).tolist()}", case)
        v = objective(meth, w, d, cov_of(x), lam, mu)
        if not close(v, fun):
            return r.fail(f"{desc}: the optimum reported is {fun:.9g}, the objective at the estimate {v:.9g}", case)
    for y, name in ((x, "training"), (other, "other")):
        ok, v = r.call(getattr(dm, "validation_" + meth), lam, mu, y, _case=case, _what=f"validation ({desc})")
        if not ok:
            return
        want = fun if name == "training" else objective(meth, *fits["hat"], cov_of(y), lam, mu)
        if not close(float(v), want):
            return r.fail(f"{desc}: validation on the {name} data gives {float(v):.9g}, should be {want:.9g}", case)
    return True


def judge_sample(dm, meth, r, case, desc):
    w, d = np.array(getattr(dm, "W_hat_" + meth)), np.array(getattr(dm, "D_hat_" + meth))
    m = w.shape[1]
    keep = dm.rng
    try:
        dm.rng = rng = c12.Design()
        ok, x = r.call(dm.sample, c12.N, meth, _case=case, _what=f"sample ({desc})")
        if not ok:
            return
        x = np.asarray(x)
        if x.shape != (c12.N, m):
            return r.fail(f"{desc}: sample({c12.N}) by {meth} has shape {x.shape}", case)
        tol = 1e-6
        if rng.opaque:
            r.note("layout of draws unknown: statistical comparison")
            dm.rng = np.random.default_rng(0)
            x, tol = dm.sample(400000, meth), 0.03
        want = w.T @ w + d
        got = np.atleast_2d(np.cov(x, rowvar=False, bias=True))
        if np.abs(got - want).max() > tol * (1 + np.abs(want).max()) or np.abs(x.mean(0)).max() > tol * (1 + np.sqrt(want.max())):
            return r.fail(f"{desc}: samples by {meth} have covariance {got.round(5).tolist()}, fitted {want.round(5).tolist()}", case)
        for n in (1, 3):
            dm.rng = np.random.default_rng(1)
            ok, x = r.call(dm.sample, n, meth, _case=case, _what=f"sample({n}) ({desc})")
            if not ok:
                return
            if np.shape(x) != (n, m):
                return r.fail(f"{desc}: sample({n}) has shape {np.shape(x)}", case)
        if meth == "mle":
            dm.rng = np.random.default_rng(1)
            ok, y = r.call(dm.sample, 3, _case=case, _what=f"sample by default ({desc})")
            if not ok or not np.array_equal(x, y):
                return r.fail(f"{desc}: sampling by default isn't sampling by mle", case)
    finally:
        dm.rng = keep
    if not (np.array_equal(w, getattr(dm, "W_hat_" + meth)) and np.array_equal(d, getattr(dm, "D_hat_" + meth))):
        return r.fail(f"{desc}: sampling changed the fit", case)
    return True


def rejected(fn, r, case, desc):
    """must raise ValueError"""
    import core

    r.step()
    try:
        with core.limit(TIMEOUT), core.quiet():
            fn()
    except ValueError:
        return True
    except Exception as e:
        return r.fail(f"{desc} raised {type(e).__name__}, not ValueError", case)
    return r.fail(f"{desc} wasn't rejected", case)


def snapshot(dm):
    return {k: v.tolist() for k, v in vars(dm).items() if isinstance(v, np.ndarray)}


def run(case, r):
    kind = case[0]
    if kind == "reject":
        meth = case[1]
        dm = models.DevMedil(rng=np.random.default_rng(0))
        x = G.dataset(COVS[3], [0, 1])
        if meth in METHODS:
            rejected(lambda: dm.sample(3, meth), r, case, f"sampling by {meth} before fitting")
            rejected(lambda: dm.sample(3), r, case, "sampling before fitting")
        else:
            rejected(lambda: dm.fit(x, meth), r, case, f"fitting by {meth!r}")
            rejected(lambda: dm.sample(3, meth), r, case, f"sampling by {meth!r}")
            r.call(dm.fit, x, "mle", 1.0, 1.0, _what="fit")
            rejected(lambda: dm.sample(3, meth), r, case, f"sampling by {meth!r} after fitting")
        r.state(("reject", meth))
        r.trace("reject")
        return
    if kind == "grid":
        _, i, lam, mu, meth, one, seeds = case[:7]
        m = len(COVS[i])
        x, other = G.dataset(COVS[i], np.arange(m), *case[7:]), G.dataset(np.eye(m) * 1.5 + 0.25, np.zeros(m), 32)
        for seed in range(seeds):
            dm = models.DevMedil(one_pure_child=one, rng=np.random.default_rng(seed))
            keep = x.copy()
            how = (lambda: dm.fit(x, meth, lam, mu)) if seed % 2 == 0 else \
                (lambda: getattr(dm, "fit_penalized_" + meth)(x, lambda_reg=lam, mu_reg=mu))
            desc = f"{meth}, covariance {COVS[i]}, lambda {lam}, mu {mu}, one_pure_child {one}, start {seed}"
            ok, res = r.call(how, _what=f"fit ({desc})")
            if not ok:
                return
            if res is not dm or not np.array_equal(keep, x):
                return r.fail(f"{desc}: fit didn't return the model, or changed the data", case)
            if not judge_fit(dm, meth, x, other, lam, mu, one, r, case, desc) or not judge_sample(dm, meth, r, case, desc):
                return
            r.state((*case[1:], seed))
            r.trace((meth, lam, mu))
            if i == 3 and seed == 0 and lam == mu == 1:
                r.sample({"what": desc, "weights": dm.W_hat.tolist(), "optimum": float(dm.result.fun)})
        return
    h = case[1]
    data = {"a": G.dataset(COVS[3], [0, 1]), "b": G.dataset(COVS[6], [1, 0, 2])}
    dm = models.DevMedil(rng=np.random.default_rng(2))
    fitted = {}
    for j, op in enumerate(h):
        desc = f"step {j} of {'-'.join(h)}"
        meth = {"M": "mle", "L": "lse", "m": "mle", "l": "lse", "u": "ols"}[op[0] if op[0] in "ML" else op[1]]
        if op[0] in "ML":
            x = data[op[1]]
            other = [k for k in METHODS if k != meth][0]
            keep = (np.copy(getattr(dm, "W_hat_" + other)), np.copy(getattr(dm, "D_hat_" + other))) if other in fitted else None
            lam, mu = (0.9, 0.4) if op[1] == "a" else (0.5, 1.1)
            ok, _ = r.call(dm.fit, x, method=meth, lambda_reg=lam, mu_reg=mu, _what=f"fit ({desc})")
            if not ok or not judge_fit(dm, meth, x, x[:5] * 2, lam, mu, True, r, case, desc):
                return
            fitted[meth] = x.shape[1]
            if keep and not (np.array_equal(keep[0], getattr(dm, "W_hat_" + other)) and
                             np.array_equal(keep[1], getattr(dm, "D_hat_" + other))):
                return r.fail(f"{desc}: fitting by {meth} changed the fit by {other}", case)
        elif op == "fu":
            before = snapshot(dm)
            if not rejected(lambda: dm.fit(data["a"], "ols"), r, case, f"fitting by an unknown method ({desc})"):
                return
            if snapshot(dm) != before:
                return r.fail(f"{desc}: a rejected fit changed the model", case)
        elif op == "su" or meth not in fitted:
            if not rejected(lambda: dm.sample(3, method=meth), r, case, f"sampling by {meth} ({desc})"):
                return
        elif not judge_sample(dm, meth, r, case, desc):
            return
    r.state(tuple(h))
    r.trace(("history", len(h), tuple(sorted(fitted))))
