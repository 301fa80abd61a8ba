"""replay.py <evidence/replays/Cxx.json>: re-run the recorded violations on the real code of /repo."""
from __future__ import annotations

import json
import sys


def main():
    from vlib import plan

    data = json.load(open(sys.argv[1]))
    p = plan.PLANS[data["property"]]
    bad = 0
    for v in data["violations"]:
        d = p.replay(v)
        print(v["case"], "->", d or "holds")
        bad += d is not None
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
