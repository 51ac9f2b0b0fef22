#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay file]"""
import importlib
import os
import sys

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(core.main(mod, sys.argv[2:]))
