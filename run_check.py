#!/usr/bin/env python3
"""run_check.py P01 [--tier quick|thorough] [--seed N] [--only sub,..] | --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
ENV = dict(
    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
    CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR="/tmp/.verif_mpl",
)
if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in ENV.items()) or (
        os.path.exists(PY) and not sys.executable.startswith("/opt/venv")
    ):
        os.environ.update(ENV)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execv(exe, [exe] + sys.argv)
    sys.dont_write_bytecode = True
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from vlib import core

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(core.replay(a.replay))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        rc = core.main(a.prop, tier, a.seed, set(filter(None, a.only.split(","))), a.scale)
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
