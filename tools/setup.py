"""Checks that the framework can run, and builds what it compiles. Run once, offline."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
code = (
    "import sys; sys.path.insert(0, %r); import numpy, mpmath, pyomo.environ, matplotlib;"
    "import tvemoves_rufbad; print('setup ok', tvemoves_rufbad.__file__)" % ROOT
)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
code += "; from harness import autodiff; autodiff.lib()"
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=env))
