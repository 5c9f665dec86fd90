#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import build, check


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = check.Check(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    mod.goals(ck)
    return ck.run()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("ERROR: the check could not be carried out")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
