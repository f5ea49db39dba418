"""Import medil from the working tree of /repo (never from anywhere else)."""
import importlib
import sys
import types

import core


def light(*names):
    """Import submodules without running medil/__init__ (which imports torch and dcor,
    10-30 s). Used by checks of modules that need neither."""
    sys.path.insert(0, core.REPO)
    if "medil" not in sys.modules:
        pkg = types.ModuleType("medil")
        pkg.__path__ = [core.REPO + "/medil"]
        sys.modules["medil"] = pkg
    mods = [importlib.import_module("medil." + n) for n in names]
    for m in mods:
        assert m.__file__.startswith(core.REPO + "/"), m.__file__
    return mods if len(mods) > 1 else mods[0]


def lazy_dcor():
    """dcor compiles for 6 s when imported; import it only if it is really used."""

    class Lazy(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            real = None

            def get():
                nonlocal real
                if real is None:
                    for k in [k for k in sys.modules if k == "dcor" or k.startswith("dcor.")]:
                        del sys.modules[k]
                    real = getattr(importlib.import_module(self.__name__), name)
                return real

            def call(*a, **k):
                return get()(*a, **k)

            return call

    for n in ("dcor", "dcor.independence"):
        if n not in sys.modules:
            m = Lazy(n)
            m.__path__ = []
            sys.modules[n] = m
    sys.modules["dcor"].independence = sys.modules["dcor.independence"]


def full(*names, dcor=False):
    sys.path.insert(0, core.REPO)
    if not dcor:
        lazy_dcor()
    medil = importlib.import_module("medil")
    assert medil.__file__.startswith(core.REPO + "/"), medil.__file__
    mods = [importlib.import_module("medil." + n) for n in names]
    try:
        import torch

        torch.set_num_threads(1)
    except Exception:
        pass
    return mods if len(mods) != 1 else mods[0]
