#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decides one property on /repo's working tree"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, props
def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    a = sys.argv[1:]
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    pid = a[0]
    return runner.run_check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1), props.PROPS[pid])
sys.exit(main())
