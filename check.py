#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("OCS_PYTHON", "/opt/venv/bin/python")
if os.environ.get("PYTHONHASHSEED") != "0" or (
    os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY)))
):
    if not os.environ.get("OCS_REEXEC"):
        os.environ.update(PYTHONHASHSEED="0", OCS_REEXEC="1", PYTHONDONTWRITEBYTECODE="1")
        os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, ROOT)

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--setup", action="store_true", help="check that the code under test and the monitors load")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
ap.add_argument("--replay")
a = ap.parse_args()

from ocs import checks, runner  # noqa: E402

if a.setup:
    from ocs import boot, gen, oracles, trace  # noqa: E402,F401

    print("openclsim from", boot.openclsim.__file__, "on", sys.version.split()[0])
    sys.exit(0)

sys.exit(runner.main(checks.load(a.property), a.tier, a.seed, a.replay))
