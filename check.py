#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case NAME]"""
import argparse
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from props import registry
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--case")
    p.add_argument("--jobs", type=int)
    a = p.parse_args()
    return registry.run(a.property, a.tier, a.case, a.jobs)


if __name__ == "__main__":
    try:
        r = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS BROKEN: the analyser itself failed")
        r = 2
    sys.exit(r)
