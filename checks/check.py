#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the code in /repo. Environment: VERIF_SEED, VERIF_TIER."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
from lib import CheckError, Run


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        plans.PLANS[prop](run)
        rc = run.finish()
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        rc = 3
    except Exception:
        print("ERROR", traceback.format_exc()[-1500:])
        rc = 3
    finally:
        run.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
