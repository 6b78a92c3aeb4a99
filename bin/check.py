#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on the working tree of /repo."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        c = vlib.Check(a.pid, a.tier, seed)
        plans.PLANS[a.pid](c)
        return c.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
