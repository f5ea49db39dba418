"""C32: verbose output and progress reports: nothing but printing, and nothing but the truth."""
import contextlib
import io
import itertools
import os
import re
import shutil
import warnings

import numpy as np

import load
import ref
from checks import c05
from checks._graphs import all_classes, all_labelled, graphs, one, stored

ID = "C32"
TIMEOUT = 60
ASSUMPTIONS = [
    "reports are recognised by their wording (`at most N cliques`, `epoch N`, `loss X`, `parameters: N`); "
    "a report that is no longer made is not judged",
]


def prepare(tier):
    global ecc, graph, models
    models, ecc, graph = load.full("models", "ecc_algorithms", "graph")
    c05.prepare(tier)


def BOUND(tier):
    q = tier == "quick"
    return (f"exact search, quiet and verbose: all labelled graphs on 1-{5 if q else 6} vertices, all on {'6-7' if q else '7-8'} up to "
            f"isomorphism; reducible copies, quiet and verbose: all graphs on 2-{5 if q else 6} vertices up to isomorphism x 3 "
            "scripts; deep model, quiet and verbose: epochs 0-3 (single fits also 12 and 64) x batch sizes x histories of "
            f"up to {2 if q else 3} fits, in one directory or several")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 7):
        out += [["search", c] for c in all_labelled(n, 64)]
    for n in ((6, 7) if q else (7, 8)):
        out += [["search", c] for c in all_classes(n, 1, 32)]
    for n in range(2, 6 if q else 7):
        out += [["copies", c] for c in all_classes(n, 2, 8)]
    k = 2 if q else 3
    for h in range(1, k + 1):
        out += [["deep", list(e), b, d] for e in itertools.product((0, 1, 3), repeat=h)
                for b in (2, 4) for d in ((0, 1) if h > 1 else (0,))]
    out += [["deep", [e], 4, 0] for e in ((12, 64) if q else (12, 64, 128, 300, 1001))]
    return out


def run(case, r):
    globals()[case[0]](case, r)


def heard(fn, *a, **k):
    """what it returns, and what it prints"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = fn(*a, **k)
    return res, out.getvalue()


def search(case, r):
    for i, adj in enumerate(graphs(case[1])):
        c = ["search", one(adj)]
        v = i % 4
        ok, a = r.call(heard, ecc.find_clique_min_cover, stored(adj, v), _case=c, _what="search")
        ok2, b = r.call(heard, ecc.find_clique_min_cover, stored(adj, v), verbose=True, _case=c,
                        _what="verbose search")
        if not (ok and ok2):
            return
        quiet, loud = a[0], b[0]
        if quiet.dtype != loud.dtype or quiet.shape != loud.shape or not (quiet == loud).all():
            r.fail(f"verbose search returns {loud.astype(int).tolist()}, quiet search "
                   f"{quiet.astype(int).tolist()}", c)
        iso = sum(1 for x in adj if not x)
        for text in (a[1], b[1]):
            m = re.search(r"at most (\d+) cliques", text)
            if m and any(adj) and len(quiet) - iso > int(m.group(1)):
                r.fail(f"at most {m.group(1)} cliques announced, {len(quiet) - iso} found "
                       f"({iso} more for isolated vertices)", c)
            tried = [int(x) for x in re.findall(r"testing for solutions with (\d+)", text)]
            if tried and any(adj) and (tried != sorted(tried) or tried[-1] != len(quiet) - iso):
                r.fail(f"reports testing {tried} cliques, the cover has {len(quiet) - iso}", c)
            r.trace(("search", bool(m), len(tried)))
        r.state(("search", adj))


def copies(case, r):
    for adj in graphs(case[1]):
        if not any(adj):
            continue
        c = ["copies", one(adj)]
        res = []
        for verbose in (False, True):
            def go():
                g = graph.UndirectedDependenceGraph(ref.matrix(adj), verbose=verbose)
                g.make_aux()
                out = []
                for s in c05.SCRIPTS:
                    h = g.reducible_copy()
                    out.append(c05.behaviour(h, s))
                    h.reset()
                    out.append(c05.behaviour(h.reducible_copy(), s))
                return out

            ok, x = r.call(heard, go, _case=c, _what=f"verbose={verbose}")
            if not ok:
                return
            res.append(x[0])
            left = [int(k) for k in re.findall(r"(\d+) uncovered edges remaining", x[1])]
            if any(k > len(ref.edges(adj)) for k in left):
                r.fail(f"{max(left)} uncovered edges reported of {len(ref.edges(adj))}", c)
        if res[0] != res[1]:
            r.fail("a verbose copy behaves differently", c)
        r.state(("copies", adj))
        r.trace(("copies", len(adj)))
    r.sample({"edges": ref.edges(adj)})


def deep(case, r):
    _, epochs, batch, dirs = case
    base = os.path.abspath(f"out{os.getpid()}")
    x = np.random.default_rng(5).standard_normal((9, 3))
    outcome = {}
    for verbose in (False, True):
        shutil.rmtree(base, ignore_errors=True)
        os.mkdir(base)
        logs = {}
        for i, e in enumerate(epochs):
            path = os.path.join(base, f"d{i * dirs}") + "/"

            def go():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    n = models.NeuroCausalFactorAnalysis(path=path, seed=i, verbose=verbose)
                    n.hyperparams.update(num_epochs=e, batch_size=batch)
                    n.fit(x[: 9 - i])
                return n

            ok, got = r.call(heard, go, _case=case, _what=f"fit {i}, verbose={verbose}")
            if not ok:
                return
            n, text = got
            with open(path + "training.log") as f:
                whole = f.read()
            before = logs.get(path, "")
            logs[path] = whole
            if not whole.startswith(before):
                r.fail(f"the log of the earlier fit is gone after fit {i}", case)
                continue
            new = whole[len(before):].splitlines()
            said = [s for s in text.splitlines() if s.strip()]
            if verbose and said != new:
                r.fail(f"printed {said[:3]}..., logged {new[:3]}...", case)
            if not verbose and said:
                r.fail(f"not verbose, but printed {said[:3]}", case)
            truth(n, new, e, case, r)
            key = (i, "loss")
            now = {k: np.asarray(v).tolist() for k, v in n.loss.items()}
            now["weights"] = np.asarray(n.parameters.weights).tolist()
            if outcome.setdefault(key, now) != now:
                r.fail(f"losses or weights of fit {i} differ when verbose", case)
        r.state((tuple(epochs), batch, dirs, verbose))
        r.trace(("deep", tuple(epochs)))
    shutil.rmtree(base, ignore_errors=True)


def truth(n, lines, epochs, case, r):
    text = "\n".join(lines)
    num = sum(p.numel() for p in n.parameters.vae.parameters() if p.requires_grad)
    m = re.search(r"parameters: (\d+)", text)
    if m and int(m.group(1)) != num:
        r.fail(f"{m.group(1)} parameters logged, there are {num}", case)
    done = re.findall(r"Finish training epoch (\d+) with loss (\S+)", text)
    if done:
        if [int(a) for a, _ in done] != list(range(epochs)):
            r.fail(f"epochs logged as finished: {[a for a, _ in done]}", case)
        close([float(b) for _, b in done], n.loss["elbo_train"], "training", case, r)
    begun = [int(a) for a in re.findall(r"Training on epoch (\d+)", text)]
    if begun and begun != list(range(epochs)):
        r.fail(f"epochs logged as begun: {begun}", case)
    valid = re.findall(r"Finish validation with loss (\S+)", text)
    if valid:
        close([float(b) for b in valid], n.loss["elbo_valid"], "validation", case, r)


def close(a, b, what, case, r):
    if len(a) != len(b) or not np.allclose(a, b, rtol=1e-5, atol=1e-8):
        r.fail(f"{what} losses logged {a}, recorded {np.asarray(b).tolist()}", case)
