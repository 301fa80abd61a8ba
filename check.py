"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current tree."""
from __future__ import annotations

import argparse
import os
import sys
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="", help="substring of case ids (debugging; writes no usable evidence)")
    args = ap.parse_args()
    t0 = time.time()
    from vlib import plan, runner

    p = plan.PLANS[args.property]
    cases = p.cases(args.tier)
    if args.only:
        cases = [c for c in cases if args.only in c.id]
    deadline = 700.0 if args.tier == "quick" else 3000.0
    results = runner.run_cases(p.decider(args.tier), cases, limit=60 if args.tier == "quick" else 240,
                               deadline=deadline - (time.time() - t0))
    rc = runner.report(args.property, args.tier, p.level, cases, results, t0, p.coverage(args.tier, cases), p.assumptions)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
