#!/opt/venv/bin/python
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ["PYTHONHASHSEED"] = "0"
if not sys.flags.hash_randomization == 0 and os.environ.get("PYDV_REEXEC") != "1":
    os.environ["PYDV_REEXEC"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pydv.run import main  # noqa

if __name__ == "__main__":
    sys.exit(main())
