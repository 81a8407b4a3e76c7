#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]   decide one property
   run.py --replay FILE                execute a recorded violation again
   run.py --setup                      build the driver and check the tools"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from vlib import checks
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return checks.setup()
    if a and a[0] == "--replay":
        return checks.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    return checks.run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
