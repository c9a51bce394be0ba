import os
import sys

from .engine import run_check

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.argv = [sys.argv[0]]
    code = run_check(prop, tier)
    sys.stdout.flush()
    os._exit(code)
