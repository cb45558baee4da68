#!/bin/bash
# Nothing to compile: check that the interpreter, the code under test and the harness import.
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c '
import sys, tempfile, shutil
sys.path.insert(0, ".")
from vf import core, env
d = tempfile.mkdtemp()
try:
    env.setup(d)
finally:
    shutil.rmtree(d)
print("ok")
'
