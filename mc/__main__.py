import argparse
import os
import sys

from . import core


def main():
    ap = argparse.ArgumentParser(prog="mc")
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    if a.replay:
        return core.run_replay(a.replay)
    return core.run_check(a.property, a.tier, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
