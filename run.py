#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decide one property."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv" \
        and os.path.exists(VT) and not os.environ.get("DV_REEXEC"):
    os.environ["DV_REEXEC"] = "1"
    os.execv(VT, [VT] + sys.argv)
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("DV_HASH") != "1":
    os.environ["DV_HASH"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dv import runner  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    rc = runner.run(pid, tier)
    sys.stdout.flush()
    os._exit(rc)
