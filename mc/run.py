"""usage: run.py ID [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import argparse
import importlib
import tempfile

import core

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay")
    a = a.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="medilcwd.")
    replay = os.path.abspath(a.replay) if a.replay else None
    os.chdir(scratch)  # some code writes to the current directory
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    try:
        mod = importlib.import_module("checks." + a.id.lower())
        rc = core.replay(mod, replay) if replay else core.main(mod, a.tier, seed)
    finally:
        os.chdir("/")
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
