#!/usr/bin/env python3
"""run.py <property id> : decide one property on /repo's current tree"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import check

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    rc = check.main(mod.run, pid, mod.TITLE)
    sys.exit(rc)
