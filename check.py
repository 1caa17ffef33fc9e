#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough] [--seed N]
or re-runs a recorded violation:  check.py --replay FILE

Each property is decided by a list of stages (verif/stages.py). Exit 0: the
property held on everything explored. Exit 1 and a VIOLATION line: it does not.
Exit 2: the check itself could not run."""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
sys.dont_write_bytecode = True

import run  # noqa: E402
import stages  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return stages.setup()
    if a.replay:
        return stages.replay(a.replay)
    c = run.Check(a.property, a.tier, a.seed)
    return c.main(stages.STAGES[a.property])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
