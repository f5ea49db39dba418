"""Temporarily replace functions the code under test calls, wherever it looks them up."""
import contextlib


@contextlib.contextmanager
def patched(*entries):
    """entries: (name, stand-in, objects...) - set on every object that has the name"""
    saved = []
    try:
        for name, new, *objs in entries:
            for o in objs:
                if name in vars(o):
                    saved.append((o, name, vars(o)[name]))
                    setattr(o, name, new)
        yield
    finally:
        for o, name, old in reversed(saved):
            setattr(o, name, old)
