#!/opt/venv/bin/python
"""check.py Cxx [--only REGEX] [--replay FILE] [-v] [-j N]      (VERIF_SEED, VERIF_TIER from the environment)"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(8000)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    import warnings

    warnings.simplefilter("ignore")
    from vc import runner

    if a.replay:
        sys.exit(runner.replay(a.prop, a.replay))
    sys.exit(runner.main(a.prop, a.tier, a.seed, a.only, a.j, a.v))
