"""Explorer core: every check is a *driver* closed over an explicit, finite set of
choices; this module runs the driver on all of them (in parallel), collects counts,
writes the evidence file and the replay files, and prints the verdict.

A check module defines
    ID            property id
    cases(tier)   iterable of JSON-able case descriptors; together they are the
                  bounded space of the tier (order: simplest first)
    run(case, r)  executes one case on the real code; reports through Rep `r`
    BOUND(tier)   text: what is enumerated completely
    (optional) prepare(tier)  executed once in the parent, before forking
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MEDIL_REPO", "/repo")
MAX_FAILS = 5


class CaseTimeout(BaseException):
    pass


class Diverged(Exception):
    """Harness error: replaying a choice prefix did not meet the same choice points."""


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Rep:
    """What one worker saw."""

    def __init__(self, timeout):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.fails = []
        self.notes = Counter()
        self.timeout = timeout
        self.case = None
        self.until = None  # when to stop enumerating the outcomes of this case
        self.cut = False  # it was stopped

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, outcome=None, n=1):
        self.traces += n
        if outcome is not None:
            self.outcomes[str(outcome)] += n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, text):
        self.notes[text] += 1

    def fail(self, msg, case=None):
        self.fails.append({"case": self.case if case is None else case, "what": str(msg)[:2000]})
        if len(self.fails) >= MAX_FAILS:
            raise StopCase

    def call(self, fn, *args, _case=None, _what="", **kw):
        """Call the code under test: quiet, with a time limit; an exception or a hang
        is reported as a failure (returns (False, None))."""
        self.transitions += 1
        try:
            with limit(self.timeout), quiet():
                return True, fn(*args, **kw)
        except CaseTimeout:
            self.fail(f"{_what} did not return within {self.timeout} s", _case)
        except StopCase:
            raise
        except Exception as e:
            self.fail(f"{_what} raised {type(e).__name__}: {e}", _case)
        return False, None


class StopCase(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def handler(*_):
        raise CaseTimeout

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_NULL = _Null()


@contextlib.contextmanager
def quiet():
    """Swallow what the code prints and warns."""
    out = sys.stdout
    sys.stdout = _NULL
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = out


# ---------------------------------------------------------------- stateless explorer
class Chooser:
    """One execution: `choose(n)` replays the prefix, then takes choice 0."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # (number of alternatives)
        self.taken = []

    def choose(self, n):
        if n <= 0:
            raise Diverged("choice point without alternatives")
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged(f"choice {c} of {n} at point {i}")
        self.points.append(n)
        self.taken.append(c)
        return c

    def pick(self, seq):
        return seq[self.choose(len(seq))]


def explore(execute, deviations=None, prefix=(), rep=None):
    """Run `execute(chooser)` for every choice sequence (with at most `deviations`
    non-zero choices, when given). Yields (chooser, result). Stops (rep.cut) when the case's
    time is used up: changed code may ask for many more choices than the bounds assume."""
    stack = [list(prefix)]
    while stack:
        if out_of_time(rep):
            return
        pre = stack.pop()
        c = Chooser(pre)
        res = execute(c)
        if len(c.taken) < len(pre):
            raise Diverged("execution ended inside the prefix")
        if rep is not None:
            rep.transitions += len(c.taken)
        yield c, res
        used = sum(1 for x in pre if x)
        if deviations is not None and used >= deviations:
            continue
        for i in range(len(c.taken) - 1, len(pre) - 1, -1):
            for alt in range(c.points[i] - 1, 0, -1):
                stack.append(c.taken[:i] + [alt])


def out_of_time(rep):
    if rep is None or rep.until is None or time.time() < rep.until:
        return False
    if not rep.cut:
        rep.note("the outcomes of a case were not completed in time")
    rep.cut = True
    return True


def prefixes(execute, length, rep=None):
    """all choice sequences cut to `length`: the roots of disjoint subtrees that together
    are the whole space"""
    stack = [[]]
    while stack and not out_of_time(rep):
        pre = stack.pop()
        c = Chooser(pre)
        execute(c)
        yield c.taken[:length]
        for i in range(len(pre), min(length, len(c.taken))):
            for alt in range(1, c.points[i]):
                stack.append(c.taken[:i] + [alt])


def explore_part(execute, part, parts, length=5, rep=None):
    """every `parts`-th subtree"""
    for k, pre in enumerate(prefixes(execute, length, rep)):
        if k % parts == part:
            yield from explore(execute, prefix=pre, rep=rep)


# ---------------------------------------------------------------- running a check
def _worker(mod, cases, counter, nfail, path, timeout, deadline, share):
    r = Rep(timeout)
    err = None
    capped = False
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(cases):
                break
            if nfail.value >= MAX_FAILS:
                break
            if time.time() > deadline:
                capped = True
                break
            r.case = cases[i]
            r.until = min(deadline, time.time() + share) if share else deadline
            r.cut = False
            n = len(r.fails)
            try:
                mod.run(cases[i], r)
            except StopCase:
                pass
            capped |= r.cut
            with nfail.get_lock():
                nfail.value += len(r.fails) - n
            if len(r.fails) >= MAX_FAILS:
                break
    except BaseException:
        err = f"case {json.dumps(r.case)[:500]}\n" + traceback.format_exc()
    with open(path, "wb") as f:
        pickle.dump((r, err, capped), f)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                key, _, text = line.split(" ", 2)[2].partition(" :: ")
                out.append((key.strip(), text))
    return out


def main(mod, tier, seed):
    t0 = time.time()
    budget = 780 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", 3300))
    timeout = getattr(mod, "TIMEOUT", 60)
    with quiet():
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        cases = list(mod.cases(tier))
    nproc = min(getattr(mod, "NPROC", 8), os.cpu_count() or 1, max(1, len(cases)))
    # what one case may take when all of them explode (quick tier)
    share = max(5, 0.7 * budget * nproc / max(1, len(cases))) if tier == "quick" else None
    ctx = multiprocessing.get_context("fork")
    counter, nfail = ctx.Value("l", 0), ctx.Value("l", 0)
    tmp = tempfile.mkdtemp(prefix="medilmc.")
    try:
        procs = []
        sys.stdout.flush()
        for k in range(nproc):
            p = ctx.Process(
                target=_worker,
                args=(mod, cases, counter, nfail, f"{tmp}/{k}", timeout, t0 + budget, share),
            )
            p.start()
            procs.append(p)
        for p in procs:
            p.join()
        reps, errs, capped = [], [], False
        for k in range(nproc):
            try:
                r, e, c = pickle.load(open(f"{tmp}/{k}", "rb"))
            except Exception as ex:
                errs.append(f"worker {k} left no result ({ex}), exit {procs[k].exitcode}")
                continue
            reps.append(r)
            capped |= c
            if e:
                errs.append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(mod, tier, seed, t0, reps, errs, capped, len(cases), nproc)


def finish(mod, tier, seed, t0, reps, errs, capped, ncases, nproc):
    states = set().union(*[r.states for r in reps]) if reps else set()
    outcomes, notes = Counter(), Counter()
    samples, fails = [], []
    for r in reps:
        outcomes.update(r.outcomes)
        notes.update(r.notes)
        samples += r.samples
        fails += r.fails
    known = dict(known_findings(mod.ID))
    new = []
    for f in fails:
        key = getattr(mod, "finding_key", lambda c: json.dumps(c))(f["case"])
        if key in known:
            notes[f"known finding {key}"] += 1
        else:
            new.append(f)
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={mod.ID} {text}")
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r.transitions for r in reps),
            "traces_validated_against_impl": sum(r.traces for r in reps),
            "distinct_outcomes": len(outcomes),
            "most_common_outcomes": [list(x) for x in outcomes.most_common(8)],
            "samples": samples[:5],
            "bound": mod.BOUND(tier),
            "exhaustive": not (capped or errs or new),
            "case_batches": ncases,
            "workers": nproc,
            "notes": dict(notes),
            "explanation": "states: distinct inputs/configurations/states of the closed "
            "system visited (hashed); transitions: steps executed on the real code, "
            "including choices taken by the environment; traces: complete executions of the "
            "real code compared with the reference model.",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if capped:
        ev["coverage"]["capped"] = "time budget reached; the space was not completed"
    os.makedirs(f"{VERIF}/evidence/replays", exist_ok=True)
    with open(f"{VERIF}/evidence/{mod.ID}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print(
        f"{mod.ID} {tier}: states={c['states']} transitions={c['transitions']} "
        f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
        f"exhaustive={c['exhaustive']} wall={ev['wall_s']}s"
    )
    if new:
        new.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
        path = f"{VERIF}/evidence/replays/{mod.ID}.json"
        with open(path, "w") as f:
            json.dump(
                {"property": mod.ID, "failures": new[:10],
                 "replay_with": f"/opt/venv/bin/python mc/run.py {mod.ID} --replay {path}"},
                f, indent=1, default=str,
            )
        for x in new[:3]:
            print(f"  case {json.dumps(x['case'], default=str)[:600]}: {x['what'][:600]}")
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    if errs:
        print("HARNESS ERROR\n" + "\n".join(errs[:3]), file=sys.stderr)
        return 2
    return 0


def replay(mod, path):
    data = json.load(open(path))
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    bad = 0
    for f in data["failures"]:
        r = Rep(getattr(mod, "TIMEOUT", 60))
        r.case = f["case"]
        try:
            mod.run(f["case"], r)
        except StopCase:
            pass
        for x in r.fails[:1]:
            print("reproduced:", x["what"])
        if not r.fails:
            print("not reproduced:", f["what"])
        bad += bool(r.fails)
    return 1 if bad else 0
