#!/usr/bin/env python3
"""Entry point:  run.py CHECK_ID            decide one property
                 run.py --replay FILE       re-run one recorded counterexample
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    py = "/opt/venv/bin/python"
    os.execv(py if os.path.exists(py) else sys.executable, [py] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main.main(sys.argv[1:]))
