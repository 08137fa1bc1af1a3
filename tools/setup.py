#!/usr/bin/env python3
"""Nothing to build: checks that nbkode imports from /repo in both modes."""

import os
import subprocess
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("NBV_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("NBV_REPO", "/repo")
for extra in ({"NBKODE_NONUMBA": "1"}, {}):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "NBKODE_", "PYTHON"))}
    env.update(PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1", NBV_REPO=REPO, **extra)
    subprocess.run([PY, "-c", "from nbv.harness import import_nbkode; m = import_nbkode(); "
                    "from nbv import ref; assert len(ref.ALL) == len(set(ref.ALL)); [m.get_solver(n) for n in ref.ALL]"],
                   cwd=VERIF, env=env, check=True)
print("ready")
