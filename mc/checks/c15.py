"""C15: all histories of fit and sample on one GaussianMCM; after every fit the model must
equal a fresh one, built with the same arguments, fitted to the same data."""
import itertools

import numpy as np

import load
from checks import _gauss as G

ID = "C15"
TIMEOUT = 120
ASSUMPTIONS = ["parameters are compared exactly: fitting is deterministic"]


def prepare(tier):
    global models
    models = load.full("models")


def data():
    """datasets whose learned structures differ, in number of latents and of measurements"""
    def make(rows, m, mean):
        s = G.matrix(rows, m).astype(float)
        s[s != 0] = 1 + 0.25 * np.arange(int(s.sum()))
        return G.dataset(s.T @ s + np.diag(0.5 + 0.25 * np.arange(m)), np.full(m, mean), 64)

    return {
        "A": make((3, 6), 3, 0.0), "B": make((7,), 3, 2.0), "C": make((1, 2, 4), 3, -1.0),
        "D": make((3, 12), 4, 1.0), "E": make((7, 12), 4, 0.5),
    }


def given(kind):
    """constructor arguments, and the datasets that fit them"""
    b3 = np.array([[1, 1, 0], [0, 1, 1]], bool)
    u3 = np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]], bool)
    if kind == "none":
        return {}, "ABCDE"
    if kind == "biadj":
        return {"biadj": b3}, "ABC"
    if kind == "udg":
        return {"udg": u3}, "ABC"
    if kind == "empty udg":
        return {"udg": np.zeros((3, 3), bool)}, "ABC"
    if kind == "both":
        return {"udg": u3, "biadj": np.array([[1, 1, 1]], bool)}, "ABC"
    if kind == "integers":
        return {"udg": u3.astype(int), "biadj": b3.astype(int)}, "ABC"
    if kind == "1pc":
        return {"udg": u3.astype(int), "one_pure_child": False}, "ABC"
    return {"biadj": np.eye(4, dtype=bool)}, "DE"


KINDS = ("none", "biadj", "udg", "empty udg", "both", "4", "integers", "1pc")


def BOUND(tier):
    return (f"all histories of length <= {3 if tier == 'quick' else 4} of fitting any of 5 datasets (3 learned structures on 3, 2 on 4 "
            "measurements) and sampling, for models with nothing, a structure, a graph, or both given, stored as "
            "booleans or integers; datasets in arrays of their own or one reused; with and without another "
            "model used in between")


def cases(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for k in KINDS:
        ops = given(k)[1] + "s"
        for l in range(1, n + 1):
            for h in itertools.product(ops, repeat=l):
                if h[-1] != "s":
                    out.append([k, "".join(h)])
    return out


_data, _fresh = None, {}


def snapshot(g):
    p = g.parameters
    return {a: np.asarray(x).tolist() for a, x in (
        ("structure", g.biadj), ("graph", g.udg), ("weights", p.biadj_weights),
        ("error means", p.error_means), ("error variances", p.error_variances))}


def run(case, r):
    global _data
    kind, h = case
    if _data is None:
        _data = data()
    key = (kind, h[-1])
    if key not in _fresh:
        g = models.GaussianMCM(**given(kind)[0], rng=np.random.default_rng(4))
        ok, _ = r.call(g.fit, _data[h[-1]].copy(), _case=[kind, h[-1]], _what=f"fit {h[-1]}")
        if not ok:
            return
        _fresh[key] = snapshot(g)
    for buffer, other in ((False, False), (True, False), (False, True)):
        if not history(kind, h, key, buffer, other, r, case):
            return
    r.state((kind, h))


def history(kind, h, key, buffer, other, r, case):
    """buffer: all datasets of a history are contents of one array; other: another model is
    fitted and sampled between the operations"""
    args = given(kind)[0]
    what = ", datasets in one array" * buffer + ", another model fitted in between" * other
    store = {}
    mate = models.GaussianMCM() if other else None
    g = models.GaussianMCM(**args, rng=np.random.default_rng(4))
    fitted = "biadj" in args
    for i, op in enumerate(h):
        if op == "s":
            if i == 0 or not any(o != "s" for o in h[:i]):
                continue  # nothing to sample from yet
            ok, s = r.call(g.sample, 3, _case=case, _what=f"sample in {h}")
        else:
            x = _data[op].copy()
            if buffer:
                b = store.setdefault(x.shape[1], x)
                b[...] = x
                x = b
            ok, s = r.call(g.fit, x, _case=case, _what=f"fit {op} in {h}")
            if ok and s is not g:
                r.fail(f"fit returned {type(s).__name__}, not the model", case)
            if ok and not np.array_equal(x, _data[op]):
                r.fail(f"fit changed dataset {op}", case)
        if not ok:
            return False
        if other:
            d = "ABCDE"[("ABCDEs".index(op) + i + 1) % 5]
            ok, _ = r.call(mate.fit, _data[d], _case=case, _what=f"fit {d} of another model")
            if not ok:
                return False
            mate.sample(2)
    now = snapshot(g)
    for a in now:
        if now[a] != _fresh[key][a]:
            r.fail(f"{a} after fitting {'-'.join(h)}{what}: {now[a]}; a fresh model fitted to "
                   f"{h[-1]}: {_fresh[key][a]}", case)
            return False
    orig = given(kind)[0]
    for a in orig:
        if not np.array_equal(args[a], orig[a]) or not np.array_equal(getattr(g, a), orig[a]):
            r.fail(f"the {a} given was changed by {h}", case)
    r.trace((kind, h[-1], len(now["structure"])))
    if len(h) == 3 and kind == "none" and "s" in h:
        r.sample({"history": h, "structure": now["structure"]})
    return True
