"""C26: deep model training after every history of random draws and fits, bit by bit
against a reference made before any of it."""
import hashlib
import itertools
import json
import os
import random
import shutil
import subprocess
import sys

import numpy as np

import core
import load

ID = "C26"
TIMEOUT = 120
OPS = "nstuprgfcvdDBF"
ASSUMPTIONS = ["one machine and one thread: reproducibility is compared bit by bit"]
CONFIGS = (
    dict(seed=0, epochs=2, batch=4, h=1, w=1, n=9, m=2, split=None),
    dict(seed=7, epochs=1, batch=2, h=2, w=2, n=8, m=3, split=None),
    dict(seed=7, epochs=3, batch=3, h=0, w=1, n=7, m=2, split=([0, 1, 2, 4], [3, 5, 6])),
    dict(seed=123456, epochs=2, batch=16, h=1, w=2, n=10, m=4, split=None),
)


def data(c):
    return np.random.default_rng(c["n"]).standard_normal((c["n"], c["m"]))


def build(c, path):
    shutil.rmtree(path, ignore_errors=True)
    ncfa = models.NeuroCausalFactorAnalysis(path=path, seed=c["seed"])
    ncfa.hyperparams.update(num_epochs=c["epochs"], batch_size=c["batch"], num_hidden_layers=c["h"],
                            width_per_meas=c["w"])
    return ncfa


def result(ncfa):
    out = {k: np.asarray(v, float).tolist() for k, v in ncfa.loss.items()}
    out["loadings"] = np.asarray(ncfa.parameters.weights, float).tolist()
    for k, v in ncfa.parameters.vae.state_dict().items():
        out[k] = hashlib.sha256(v.numpy().tobytes()).hexdigest()
    return out


def prepare(tier):
    global models, torch, reference
    models = load.full("models")
    import torch

    reference = {}
    if tier == "subprocess":
        return
    # in children, so that nothing is drawn in this process
    for i, c in enumerate(CONFIGS):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                ncfa = build(c, f"reference{i}/")
                ncfa.fit(data(c), c["split"])
                res = json.dumps(result(ncfa))
            except BaseException as e:
                res = json.dumps({"error": repr(e)})
            with os.fdopen(wr, "w") as f:
                f.write(res)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            reference[i] = json.load(f)
        os.waitpid(pid, 0)


def BOUND(tier):
    n = 2 if tier == "quick" else 3
    return (f"all histories of length <= {n} from {len(OPS)} kinds of drawing, seeding, constructing, sampling and fitting, placed before "
            f"constructing or between constructing and fitting, x {len(CONFIGS)} settings; all sequences of "
            f"{n} to {n + 1} fits of one object to two datasets; a fresh interpreter per setting")


def cases(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for i in range(len(CONFIGS)):
        out.append(["process", i])
        for k in range(n + 1):
            for h in itertools.product(OPS, repeat=k):
                for where in ("before", "between") if k else ("before",):
                    if k == 3 and (i > 1 or where == "between") and len(set(h)) == 1:
                        continue
                    out.append(["history", i, where, "".join(h)])
        for k in (n, n + 1):
            out += [["refit", i, "".join(h)] for h in itertools.product("ab", repeat=k)]
    return out


def step(op, i):
    path = f"hist{os.getpid()}/"
    if op == "n":
        np.random.standard_normal(3)
    elif op == "s":
        np.random.seed(5)
    elif op == "t":
        torch.rand(4)
    elif op == "u":
        torch.manual_seed(99)
    elif op == "p":
        random.seed(3), random.random()
    elif op == "r":
        torch.seed(), np.random.seed()
    elif op == "g":
        g = models.GaussianMCM(biadj=np.eye(2, dtype=bool))
        g.fit(np.random.default_rng(1).standard_normal((6, 2)))
        g.sample(3)
    elif op == "c":
        build(CONFIGS[(i + 1) % len(CONFIGS)], path)
    elif op == "f":
        c = dict(CONFIGS[(i + 1) % len(CONFIGS)], epochs=1)
        build(c, path).fit(data(c), c["split"])
    elif op == "F":  # the same settings and seed, other data
        c = dict(CONFIGS[i], epochs=1)
        build(c, path).fit(-2 * data(c) ** 3, c["split"])
    elif op == "v":
        v = models.Parameters("VAE").vae
        v.train()
    elif op == "d":
        torch.nn.functional.dropout(torch.ones(5), 0.5)
    elif op == "D":
        torch.randperm(6), np.random.permutation(4)
    elif op == "B":  # leave the generator in the middle of a pair of normal draws
        torch.empty(1).normal_(), np.random.normal()


def compare(got, want, r, case, desc):
    if "error" in want:
        return r.fail(f"fit raised {want['error']}", case)
    for k in want:
        if got.get(k) != want[k]:
            return r.fail(f"{desc}: {k} is {str(got.get(k))[:120]}, without the history {str(want[k])[:120]}", case)
    return True


def run(case, r):
    kind, i = case[0], case[1]
    c = CONFIGS[i]
    path = f"fit{os.getpid()}/"
    if kind == "process":
        code = ("import sys,json;sys.path.insert(0,%r);import os;from checks import c26;"
                "c26.prepare('subprocess');c=c26.CONFIGS[%d];n=c26.build(c,'sub%d/');"
                "import core\nwith core.quiet(): n.fit(c26.data(c),c['split'])\nprint('RES'+json.dumps(c26.result(n)))"
                % (core.VERIF + "/mc", i, i))
        p = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(i + 1)))
        line = [x for x in p.stdout.splitlines() if x.startswith("RES")]
        if not line:
            raise RuntimeError(p.stderr[-1500:])
        r.step()
        if compare(json.loads(line[0][3:]), reference[i], r, case, "in another process"):
            r.state(("process", i))
            r.trace("process")
        return
    if kind == "history":
        _, _, where, h = case
        ncfa = None
        if where == "between":
            ok, ncfa = r.call(build, c, path, _what="constructing")
        for op in h:
            ok, _ = r.call(step, op, i, _what=f"step {op} of {h}")
            if not ok:
                return
        if ncfa is None:
            ok, ncfa = r.call(build, c, path, _what="constructing")
        if ncfa is None:
            return
        ok, _ = r.call(ncfa.fit, data(c), c["split"], _what=f"fit after {h}")
        if not ok:
            return
        got = json.loads(json.dumps(result(ncfa)))
        if compare(got, reference[i], r, case, f"after {h or 'nothing'} {where} constructing (seed {c['seed']})"):
            r.state((i, where, h))
            r.trace(("history", i, len(h)))
            if h == "tf" and i == 0:
                r.sample({"history": h, "elbo_train": got["elbo_train"]})
    else:
        h = case[2]
        ok, ncfa = r.call(build, c, path, _what="constructing")
        if not ok:
            return
        first = {"a": reference[i]}
        for j, d in enumerate(h):
            x = data(c) if d == "a" else data(c) * 2 + data(c) ** 2
            ok, _ = r.call(ncfa.fit, x, c["split"], _what=f"fit {j} of {h}")
            if not ok:
                return
            got = json.loads(json.dumps(result(ncfa)))
            if d not in first:
                first[d] = got
            elif not compare(got, first[d], r, case, f"fit {j} of {h} on one object"):
                return
        r.state((i, "refit", h))
        r.trace(("refit", len(h)))
