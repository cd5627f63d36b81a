#!/usr/bin/env python3
"""Runs the check of one property.

usage: check.py <ID>              (VERIF_SEED, VERIF_TIER in the environment)
       check.py --replay <file>   (reruns the case recorded in a replay file, verbosely)
       check.py --setup           (builds every harness)
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))

import build  # noqa: E402
import runner  # noqa: E402
from table import CHECKS  # noqa: E402


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        names = sorted({n for c in CHECKS.values() for n in c["build"]})
        build.build_all(names)
        return 0
    if len(args) == 2 and args[0] == "--replay":
        return runner.replay(args[1])
    if len(args) != 1 or args[0] not in CHECKS:
        print(__doc__, file=sys.stderr)
        return 64
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return runner.run_check(args[0], CHECKS[args[0]], seed, tier)


if __name__ == "__main__":
    try:
        code = main()
    except (build.Build_error, runner.Harness_error) as e:
        print(f"ERROR: {e}", file=sys.stderr)
        code = 3
    sys.exit(code)
