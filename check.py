#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property statically."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from kpsr import core  # noqa: E402
from kpsr import rules  # noqa: E402,F401

if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a == ["--list"]:
        print("\n".join(sorted(core.PROPS)))
        sys.exit(0)
    rc = 0
    for p in a:
        rc = max(rc, core.run(p, tier))
    sys.exit(rc)
