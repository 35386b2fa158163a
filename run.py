#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, check, props


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.CHECKS:
        print("usage: run.py <property> [quick|thorough]; properties: " + " ".join(sorted(props.CHECKS)))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ck = check.Check(prop, tier, seed)
    try:
        props.CHECKS[prop](ck)
    except core.HarnessError as e:
        print("ERROR: %s" % e)
        if not ck.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not ck.violations:
            return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
