#!/usr/bin/env python3
"""check.py <property id>   run the check of one property
check.py --setup           build what can be built in advance
check.py --replay FILE     run the case of a replay file again"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main_of(pid):
    try:
        mod = importlib.import_module(pid.lower())
        return mod.main
    except ModuleNotFoundError as e:
        if e.name != pid.lower():
            raise
    import specs
    return specs.CHECKS[pid]


def main():
    a = sys.argv[1:]
    import tool
    if a[:1] == ["--setup"]:
        tool.build()
        return 0
    if a[:1] == ["--replay"]:
        import replay
        return replay.run(a[1])
    try:
        return main_of(a[0])()
    except tool.Inconclusive as e:
        print(f"{a[0]}: inconclusive: {e}")
        return 2


sys.exit(main())
