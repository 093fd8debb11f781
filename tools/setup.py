"""Makes the pre-installed Hypothesis importable for the checks (offline)."""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and not sys.executable.startswith("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
core.ensure_deps()
import hypothesis
print("hypothesis", hypothesis.__version__)
