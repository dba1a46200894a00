#!/usr/bin/env python3
"""check.py ID [--strict] [--root DIR]: decide one property on the current source of /repo"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.rule import RULES, run_property  # noqa: E402

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    root = "/repo"
    for a in sys.argv[1:]:
        if a.startswith("--root="):
            root = a[7:]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    strict = "--strict" in sys.argv
    if args == ["all"]:
        from sa import allrules  # noqa: F401
        args = sorted(RULES)
    worst = 0
    if "--selfcheck" in sys.argv:
        from sa import allrules  # noqa: F401
        from sa.loader import Project
        print("%d modules, %d properties with rules" % (len(Project(root).modules), len(RULES)))
        sys.exit(0)
    for pid in args:
        worst = max(worst, run_property(pid, tier, root, strict))
    sys.exit(worst)
