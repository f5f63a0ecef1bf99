#!/usr/bin/env python3
"""Entry point: check.py <property id> [--tier quick|thorough]"""
import os
import sys

PY = "/opt/venv/bin/python"
if __name__ == "__main__":
    if os.path.exists(PY) and os.environ.get("VERIF_REEXEC") != "1":
        os.environ["VERIF_REEXEC"] = "1"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY, "-P", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from harness.core import main

    sys.exit(main(sys.argv))
