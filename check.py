#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--only SUBSTRING] | --replay FILE | --setup"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import driver  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        import shutil
        for t in ("clang++", "python3"):
            if not shutil.which(t):
                print("missing", t)
                return 2
        os.makedirs(os.path.join(driver.VERIF, "build"), exist_ok=True)
        return 0
    if a.replay:
        return driver.replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    return driver.main(a.property, tier, seed, a.only)


sys.exit(main())
