#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property on /repo's working tree."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kv import run  # noqa: E402
import checks  # noqa: E402


def go():
    pid = sys.argv[1]
    c = checks.REGISTRY[pid]
    mod = importlib.import_module("checks." + c["module"])
    fixture = getattr(mod, c["fixture"]) if c.get("fixture") else None
    return run.main(pid, c["packages"], getattr(mod, c["fn"]), c["title"], sys.argv[2:], fixture)


if __name__ == "__main__":
    sys.exit(go())
