#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property on the source in /repo (or $VF_REPO)."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf.report import main
from rules import RULES

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if prop == "all":
        rc = 0
        for p in sorted(RULES):
            rc = max(rc, main(p, RULES[p], tier))
        sys.exit(rc)
    sys.exit(main(prop, RULES[prop], tier))
