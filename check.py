#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N]   |   check.py --replay FILE

exit 0: the property held on every execution observed; exit 1: VIOLATION line; other: inconclusive.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-no-bytecode"  # always judge the current sources, never stale bytecode
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, HERE)


def main():
    import argparse
    import json

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from lib import core

    if a.replay:
        rec = json.load(open(a.replay))
        rec["path"] = a.replay
        return core.run(rec["property"], rec["tier"], rec["seed"], replay=rec)
    return core.run(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
