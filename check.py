#!/opt/venv/bin/python
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself in the repository's own interpreter with a fixed environment and
runs the generated-input checks of one property against /repo's working tree."""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "ignore",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
}
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("PBT_READY") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["PBT_READY"] = "1"
    if os.path.isdir("/opt/mplconfig"):
        env.setdefault("MPLCONFIGDIR", "/opt/mplconfig")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PBT_REPO", "/repo"))
from pbt import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
