#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from /repo's current source."""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    from sa import report
    mod = importlib.import_module("rules." + a.pid.lower())
    return report.run_check(a.pid, a.tier, mod)


if __name__ == "__main__":
    rc = [2]
    def go(): rc[0] = main()
    t = threading.Thread(target=go)
    t.start(); t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
