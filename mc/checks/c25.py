"""C25: artefacts of a deep model's training: every spelling of the directory, histories of
fits, and a fault injected at every byte and every operation of saving."""
import builtins
import contextlib
import errno
import io
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import sysconfig
import tempfile
from pathlib import Path

import numpy as np

import core
import load
from checks._patch import patched

ID = "C25"
TIMEOUT = 120
STDLIB = sysconfig.get_paths()["stdlib"]
EVENTS = ("open", "os.mkdir", "os.remove", "os.rmdir", "os.truncate", "shutil.rmtree", "os.rename", "os.link", "os.symlink")
FILES = ("training.log", "model_recon.pt", "loss_recon.pkl", "error_recon.pkl")
ASSUMPTIONS = [
    "the directory's parent exists; faults are errors reported by the operating system or the "
    "serialisers (disk full, file too large, not writable), not silent corruption",
]
SPELLINGS = ("out/", "out", "./out", "./out/", "out//", "out/.", "sub/out", "sub/../out", "sub/../sub/out/", "../cwd/out",
             "ABS", "ABS/", "ABS/../out", "Path:out", "Path:ABS", "Path:sub/out", "out put/", "out.d", "out-new/", "OUT",
             "link", "link/", "./", ".", "../sibling", "~", "~/", "~out/", "$HOME", "${PWD}/", "%d out", "out{}", "[x]*", "\u00fcn\u00efcode/", "-out",
             "out.pt", "out.tar.gz/", ".hidden", "model_recon.pt/", "Path:~", "out\\x", "a:b", "a b/", " out")


def prepare(tier):
    global models, torch
    models = load.full("models")
    import torch

    sys.addaudithook(audit)


def BOUND(tier):
    q = tier == "quick"
    return (f"{len(SPELLINGS)} spellings of the directory x new or existing, empty or in use x {2 if q else 3} lengths of training; "
            f"all histories of {3 if q else 4} fits of two models in two directories; file size limits of {'every 23rd' if q else 'every'} byte "
            "up to the size of the model, and every byte of the log; an error at every opening of a file for writing, at "
            "every write of the log and of either loss history, before, in the middle of, or when closing it; every "
            "artefact in turn replaced by a directory, or a full device; first and second fits")


def cases(tier):
    q = tier == "quick"
    out = [["spelling", s, e, ep] for s in SPELLINGS for e in ("new", "empty", "used") for ep in ((1, 2) if q else (0, 1, 3))
           if not (e == "new" and (s.startswith("link") or s in ("./", ".")))]
    for n in range(1, 4 if q else 5):
        out += [["history", "".join(h)] for h in itertools.product("AaBb", repeat=n)]
    out += [["limit", lo, lo + 10] for lo in range(0, 420, 10)]
    if q:
        out += [["limit", k, k + 1] for k in range(420, 12000, 23)]
    else:
        out += [["limit", lo, lo + 100] for lo in range(420, 12000, 100)]
    for first in (True, False):
        out += [["fault", first, p] for p in range(6)]
        out += [["real", first, f, how] for f in FILES for how in ("directory", "full", "dangling")]
    return out


# ------------------------------------------------- watching where files are opened
_log = None


def ours():
    """the file operation was asked for by medil itself (perhaps through the standard library)"""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.startswith((STDLIB, "<frozen")) \
            and "site-packages" not in f.f_code.co_filename:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(core.REPO + "/medil")


def audit(event, args):
    if _log is None or event not in EVENTS or not ours():
        return
    if event == "open" and isinstance(args[0], (str, bytes)) and (
            (isinstance(args[1], str) and any(c in args[1] for c in "wax+"))
            or (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
        _log.append(os.path.abspath(os.fsdecode(args[0])))
    elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "shutil.rmtree"):
        if isinstance(args[0], (str, bytes)):
            _log.append(os.path.abspath(os.fsdecode(args[0])))
    elif event in ("os.rename", "os.link", "os.symlink"):
        _log.extend(os.path.abspath(os.fsdecode(a)) for a in args[:2] if isinstance(a, (str, bytes)))


@contextlib.contextmanager
def scratch():
    root = tempfile.mkdtemp(prefix="c25.", dir=os.getcwd())
    old = os.getcwd()
    os.mkdir(root + "/cwd")
    os.mkdir(root + "/cwd/sub")
    os.mkdir(root + "/home")
    os.chdir(root + "/cwd")
    home, os.environ["HOME"] = os.environ.get("HOME"), root + "/home"
    try:
        yield root
    finally:
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
        os.chdir(old)
        shutil.rmtree(root)


def tree(root):
    out = {}
    for d, subs, files in os.walk(root):
        for f in subs + files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = None if os.path.isdir(p) and not os.path.islink(p) else (
                ("link", os.readlink(p)) if os.path.islink(p) else open(p, "rb").read())
    return out


def data(n=6, m=2, k=0):
    return np.random.default_rng(n + k).standard_normal((n, m))


def new(path, r, epochs=1, seed=0, **k):
    ok, ncfa = r.call(models.NeuroCausalFactorAnalysis, path=path, seed=seed, _what=f"constructing with path {path!r}", **k)
    if not ok:
        return None
    ncfa.hyperparams.update(num_epochs=epochs, batch_size=4)
    return ncfa


def complete(ncfa, real, r, case, desc, epochs):
    """the artefacts in directory `real` are those of the fitted object"""
    for f in FILES:
        if not os.path.isfile(os.path.join(real, f)):
            return r.fail(f"{desc}: {f} is missing from the directory ({sorted(os.listdir(real))})", case)
    try:
        saved = torch.load(os.path.join(real, "model_recon.pt"), weights_only=False)
        with open(os.path.join(real, "loss_recon.pkl"), "rb") as f:
            loss = pickle.load(f)
        with open(os.path.join(real, "error_recon.pkl"), "rb") as f:
            error = pickle.load(f)
        log = open(os.path.join(real, "training.log")).read()
    except Exception as e:
        return r.fail(f"{desc}: artefacts can't be loaded: {type(e).__name__}: {e}", case)
    for got, keys in ((loss, ("elbo_train", "elbo_valid")), (error, ("recon_train", "recon_valid"))):
        if len(got) != 2:
            return r.fail(f"{desc}: {len(got)} saved histories", case)
        for g, k in zip(got, keys):
            if not np.array_equal(np.asarray(g), np.asarray(ncfa.loss[k])) or len(g) != epochs:
                return r.fail(f"{desc}: saved {k} {np.asarray(g).tolist()}, reported {np.asarray(ncfa.loss[k]).tolist()}, "
                              f"{epochs} epochs", case)
    a, b = saved.state_dict(), ncfa.parameters.vae.state_dict()
    if sorted(a) != sorted(b) or any(not torch.equal(a[k], b[k]) for k in a):
        return r.fail(f"{desc}: the saved model isn't the fitted one", case)
    x = torch.zeros(2, data().shape[1]) + 0.3
    saved.eval()
    ncfa.parameters.vae.eval()
    with torch.no_grad():
        if any(not torch.equal(s, t) for s, t in zip(saved(x), ncfa.parameters.vae(x))):
            return r.fail(f"{desc}: the saved model answers otherwise than the fitted one", case)
    if not np.array_equal(np.asarray(ncfa.parameters.weights),
                          saved.decoder.cov_linear_fulcon.weight.detach().numpy().T):
        return r.fail(f"{desc}: the weights reported aren't the saved model's", case)
    for k in ("elbo_train", "elbo_valid"):
        for v in ncfa.loss[k]:
            if repr(float(v)) not in log and f"{float(v):.4g}" not in log:
                return r.fail(f"{desc}: loss {float(v)} of {k} isn't in the log", case)
    return True


def run(case, r):
    globals()["run_" + case[0]](case, r)


def run_spelling(case, r):
    global _log
    _, s, state, epochs = case
    with scratch() as root:
        path = s.replace("Path:", "").replace("ABS", root + "/cwd/out")
        real = os.path.normpath(os.path.join(root, "cwd", path))
        if s.startswith("link"):
            os.mkdir(root + "/target")
            os.symlink(root + "/target", "link")
            real = root + "/target"
        if state != "new":
            os.makedirs(real, exist_ok=True)
        if state == "used":
            with open(real + "/notes.txt", "w") as f:
                f.write("mine")
            with open(real + "/training.log", "w") as f:
                f.write("earlier entry\n")
        if ".." in s and not s.startswith("../") and "ABS" not in s:
            os.makedirs("sub", exist_ok=True)
        if s == "ABS/../out":
            os.makedirs(root + "/cwd/out", exist_ok=True)
        before = tree(root)
        _log = []
        try:
            given = Path(path) if s.startswith("Path:") else path
            ncfa = new(given, r, epochs)
            if ncfa is None:
                return
            ok, _ = r.call(ncfa.fit, data(), _what=f"fit with path {path!r}")
        finally:
            opened, _log = _log, None
        if not ok:
            return
        if complete(ncfa, real, r, case, f"path {given!r}", epochs) is None:
            return
        after = tree(root)
        inside = os.path.relpath(os.path.realpath(real), os.path.realpath(root))
        for p in set(before) | set(after):
            if before.get(p, 0) != after.get(p, 0) and p != inside and (os.path.dirname(p) != inside):
                return r.fail(f"path {given!r}: {p} was written, outside the directory", case)
        for p in opened:
            q = os.path.realpath(p)
            if q != os.path.realpath(real) and not q.startswith(os.path.realpath(real) + os.sep):
                if "__pycache__" in q or q.startswith("/dev/"):
                    continue
                return r.fail(f"path {given!r}: {p} was opened for writing, outside the directory", case)
        if state == "used" and after[os.path.join(inside, "notes.txt")] != b"mine":
            return r.fail(f"path {given!r}: a file that was in the directory was changed", case)
        r.state(tuple(case))
        r.trace(("spelling", tuple(sorted(os.path.basename(p) for p in after if os.path.dirname(p) == inside))))
        if s == "sub/../out":
            r.sample({"path": path, "written": sorted(set(after) - set(before)), "opened": len(opened)})


def run_history(case, r):
    """A, B: models in directories of their own, fitted to one of two datasets (upper and
    lower case)"""
    h = case[1]
    with scratch() as root:
        ncfa = {k: new(f"{root}/{k}", r, 1 + (k == "B"), seed=k == "B") for k in "AB"}
        if None in ncfa.values():
            return
        fitted = set()
        for i, op in enumerate(h):
            k = op.upper()
            ncfa[k].hyperparams["num_epochs"] = 1 + (i + (k == "B")) % 2
            ok, _ = r.call(ncfa[k].fit, data(6 + (op == k), 2, 5), _what=f"fit {i} of {h}")
            if not ok:
                return
            fitted.add(k)
            for j in "AB":
                if j in fitted and complete(ncfa[j], f"{root}/{j}", r, case, f"directory {j} after {h[:i + 1]}",
                                            len(ncfa[j].loss["elbo_train"])) is None:
                    return
                if j not in fitted and os.listdir(f"{root}/{j}"):
                    return r.fail(f"directory {j} holds {os.listdir(f'{root}/{j}')} before its model is fitted", case)
        r.state(h)
        r.trace(("history", len(h)))


def try_fit(ncfa, r, k=0):
    """(raised, exception), without the reports of r.call"""
    r.step()
    try:
        with core.limit(TIMEOUT), core.quiet():
            ncfa.fit(data(6, 2, k))
        return None
    except core.CaseTimeout:
        r.fail("fit did not return after a fault")
        return "timeout"
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def unclaimed(ncfa):
    return ncfa.loss is None and np.asarray(ncfa.parameters.weights).size == 0


def run_limit(case, r):
    """real faults: the operating system refuses to let any file grow past k bytes"""
    _, lo, hi = case
    with scratch() as root:
        size = None
        for k in range(lo, hi):
            ncfa = new(f"{root}/l{k}", r)
            if ncfa is None:
                return
            if size is None:  # how large files get without a limit
                ref = new(f"{root}/ref", r)
                e = try_fit(ref, r)
                if e:
                    return r.fail(f"fit raised {e}", case)
                size = max(os.path.getsize(f"{root}/ref/{f}") for f in os.listdir(f"{root}/ref"))
            if k >= size + 50:
                return
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
            try:
                e = try_fit(ncfa, r)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, hard))
                signal.signal(signal.SIGXFSZ, old)
            r.state(("limit", k))
            r.trace(("limit", (e or "none").split(":")[0]))
            if not verdict(e, ncfa, f"{root}/l{k}", r, case, f"with files limited to {k} bytes", True):
                return
            shutil.rmtree(f"{root}/l{k}")


def verdict(e, ncfa, real, r, case, desc, first):
    if e is None:
        n = len(r.fails)
        complete(ncfa, real, r, case, f"{desc}, fitting reported success", 1)
        return len(r.fails) == n
    if first and not unclaimed(ncfa):
        r.fail(f"{desc}: fitting failed ({e}), but the object claims a fit", case)
        return False
    return True


class Failing:
    """a file that fails at its n-th write (having written half of it), or on closing"""

    def __init__(self, f, at, half, hit):
        self.f, self.at, self.half, self.n, self.hit = f, at, half, 0, hit

    def write(self, b):
        if self.n == self.at:
            if self.half and len(b) > 1:
                self.f.write(b[:len(b) // 2])
            self.hit[0] = True
            raise OSError(errno.ENOSPC, "No space left on device")
        self.n += 1
        return self.f.write(b)

    def close(self):
        self.f.close()
        if self.at is None:
            self.at = -1
            self.hit[0] = True
            raise OSError(errno.ENOSPC, "No space left on device")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __iter__(self):
        return iter(self.f)


def run_fault(case, r):
    """the k-th opening for writing, the k-th torch.save or pickle.dump, or the k-th file's
    n-th write or closing fails, for all k and n"""
    _, first, mode = case
    real_open, real_save, real_dump = builtins.open, None, pickle.dump
    import torch

    real_save = torch.save
    k = 0
    with scratch() as root:
        while True:
            d = f"{root}/f{k}"
            ncfa = new(d, r)
            if ncfa is None:
                return
            if not first and try_fit(ncfa, r):
                return r.fail("fit failed without a fault", case)
            count, hit = [0], [False]

            def due():
                count[0] += 1
                return count[0] - 1 == k

            def opener(file, mode_="r", *a, **kw):
                m = kw.get("mode", mode_)
                writing = isinstance(file, (str, Path)) and any(c in m for c in "wax+") and \
                    os.path.abspath(file).startswith(root)
                if writing and mode == 0 and due():
                    hit[0] = True
                    raise OSError(errno.EACCES, "Permission denied", str(file))
                f = real_open(file, mode_, *a, **kw)
                if writing and mode in (1, 2, 3) and due():
                    return Failing(f, None if mode == 3 else 0, mode == 2, hit)
                return f

            def save(obj, f, *a, **kw):
                if mode == 4 and due():
                    hit[0] = True
                    if not isinstance(f, (str, Path)):
                        f.write(b"PK")
                    else:
                        with real_open(f, "wb") as g:
                            g.write(b"PK")
                    raise OSError(errno.ENOSPC, "No space left on device")
                return real_save(obj, f, *a, **kw)

            def dump(obj, f, *a, **kw):
                if mode == 5 and due():
                    hit[0] = True
                    f.write(b"\x80\x05")
                    raise OSError(errno.ENOSPC, "No space left on device")
                return real_dump(obj, f, *a, **kw)

            with patched(("open", opener, builtins), ("save", save, torch), ("dump", dump, pickle)):
                e = try_fit(ncfa, r, 1)
            if not hit[0]:
                if e:
                    return r.fail(f"fit raised {e} without a fault", case)
                if count[0] <= k:
                    r.note(f"fault kind {mode}: {k} places")
                    return
                k += 1
                continue
            what = ("opening", "write", "partial write", "closing", "saving the model", "pickling")[mode]
            r.state((first, mode, k))
            r.trace(("fault", mode, (e or "none").split(":")[0]))
            if e is None:
                return r.fail(f"{what} number {k} failed, but fitting reported success", case)
            if not verdict(e, ncfa, d, r, case, f"{what} number {k} failed", first):
                return
            k += 1
            if k > 500:
                return r.note(f"fault kind {mode}: more than 500 places, stopped")


def run_real(case, r):
    """an artefact's name is taken by something that can't be written"""
    _, first, f, how = case
    with scratch() as root:
        d = f"{root}/out"
        ncfa = new(d, r)
        if ncfa is None:
            return
        if not first and try_fit(ncfa, r):
            return r.fail("fit failed without a fault", case)
        p = f"{d}/{f}"
        if os.path.exists(p):
            os.remove(p)
        if how == "directory":
            os.mkdir(p)
        elif how == "full":
            os.symlink("/dev/full", p)
        else:
            os.symlink(f"{root}/nowhere/file", p)
        e = try_fit(ncfa, r, 1)
        r.state(tuple(case))
        r.trace(("real", how, (e or "none").split(":")[0]))
        if e is None:
            # saving may have replaced what was in the way
            return complete(ncfa, d, r, case, f"{f} was a {how}, fitting reported success", 1)
        verdict(e, ncfa, d, r, case, f"{f} was a {how}", first)
