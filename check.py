#!/opt/venv/bin/python
"""check.py Pxx [--unit NAME] [--replay FILE]: decide one property of /repo's current tree."""
import json
import os
import sys
import time

os.environ.setdefault("TZ", "UTC")
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("PV_REEXEC") != "1":
    os.environ["PV_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import main
sys.exit(main.main(sys.argv[1:]))
