#!/usr/bin/env python3
"""Entry point of every check: run.py --property C01 [--tier quick|thorough] | --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0":
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, VERIF_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        os.execve(PY, [PY, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim.runner import main  # noqa: E402

sys.exit(main())
