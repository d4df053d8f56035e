#!/usr/bin/env python3
"""setup_cmd: checks that everything the checks need is present (nothing is built ahead: Python code is run from /repo)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replay"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
code = (
    "import sys; sys.path.insert(0, %r); from vlib import boot; boot.hypothesis_path(); boot.libensemble_path();"
    "import hypothesis, libensemble, numpy; print('hypothesis', hypothesis.__version__, 'libensemble', libensemble.__file__)" % HERE
)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
