#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 violation, 2 the machinery failed"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import checks
from vf.build import ToolError
from vf.core import Check


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        checks.CHECKS[prop](c)
    except ToolError as e:
        if c.violations:
            c.finish()
            return 1
        print("ERROR %s: %s" % (prop, e))
        return 2
    rc = c.finish()
    print("%s %s: %s in %.1fs, %d runs of the code checked, %d records, %d model states" % (
        prop, tier, "VIOLATED" if rc else "held", __import__("time").time() - c.t0,
        c.cov["traces_validated_against_impl"], c.cov["records_checked"], c.cov["states"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
