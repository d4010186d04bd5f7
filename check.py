#!/usr/bin/env python3-vt
"""check.py ID [--only REGEX] [-v] [--replay FILE] [--selftest]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    pid = a[0]
    from gvc import runner
    mod = importlib.import_module("contracts." + pid.lower())
    P = mod.P
    only = a[a.index("--only") + 1] if "--only" in a else None
    if "--replay" in a:
        return runner.replay(P, a[a.index("--replay") + 1])
    if "--selftest" in a:
        return runner.selftest(P, only)
    return runner.run_property(P, only, "-v" in a)


if __name__ == "__main__":
    sys.exit(main())
