#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]   |   check.py --setup"""
import glob
import importlib
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/engine")
sys.path.insert(0, V + "/checks")
sys.dont_write_bytecode = True
import ctx


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-v")]
    if a[0] == "--setup":
        ctx.extract(["core", "coreT", "exp", "expT"])
        return 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module(pid.lower())
    return ctx.main(pid, m, tier, getattr(m, "LEVEL", "other"))


sys.exit(main())
