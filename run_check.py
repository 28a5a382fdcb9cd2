#!/opt/venv/bin/python
"""usage: run_check.py PROPERTY [--replay FILE]

Decides one property by monitoring executions of the code in /repo/src. See DESIGN.md.
"""
import os
import sys

_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MPLCONFIGDIR": "/tmp/verif-mpl",
}
_VENV = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _ENV.items()) or os.path.realpath(
    sys.prefix
) != "/opt/venv":
    os.environ.update(_ENV)
    os.environ.pop("PYTHONPATH", None)
    os.execv(_VENV, [_VENV, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness.core import main  # noqa: E402

try:
    code = main(sys.argv[1:])
except Exception:  # a broken harness is neither a violation nor a pass
    import traceback

    traceback.print_exc()
    print("ERROR: the check itself failed")
    code = 3
sys.stdout.flush()
sys.exit(code)
