#!/opt/venv/bin/python
"""Decides one property (or replays a counterexample).

    run.py <PROPERTY> [--tier quick|thorough] [--only HARNESS]
    run.py --replay FILE
"""
import importlib
import json
import os
import pickle
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

from checks import AREAS  # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            v = json.load(f)
        area = importlib.import_module("checks." + AREAS[v["property"][0]])
        return area.replay(v)
    pid = args[0]
    area = importlib.import_module("checks." + AREAS[pid[0]])
    return area.check(pid, tier, seed, only)


if __name__ == "__main__":
    sys.exit(main())
