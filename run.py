#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import tlscheck as T
import checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = T.Check(prop, tier, seed)
    try:
        T.build(checks.BINS.get(prop, ("hs",)))
        checks.CHECKS[prop](c)
    except T.ToolError as e:
        print("ERROR %s: %s" % (prop, e))
        if not [p for _, p in c.violations if p]:
            return 2
    return c.finish()


sys.exit(main())
