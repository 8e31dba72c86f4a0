#!/usr/bin/env python3
"""python run.py C01 [--tier quick|thorough] [--seed N]   |   python run.py --replay FILE"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0" or sys.prefix != "/opt/venv":
    if os.environ.get("VERIF_REEXEC") != "1" and os.path.exists(PY):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_REEXEC="1")
        os.execve(PY, [PY] + sys.argv, env)
sys.path.insert(0, HERE)
from vlib import runner


def main(a):
    if a and a[0] == "--replay":
        return runner.replay(a[1])
    prop, tier, seed = None, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--seed":
            seed = int(a[i + 1]); i += 2
        else:
            prop = a[i]; i += 1
    return runner.run_check(prop, "checks.%s" % prop.lower(), seed, tier)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
