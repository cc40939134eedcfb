"""python3 vt/run.py S01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core           # noqa: E402
from vt.checks import TABLE   # noqa: E402

if __name__ == "__main__":
    core.main(sys.argv[1], TABLE)
