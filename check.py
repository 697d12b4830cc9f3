import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1)
    )
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.worker is not None:
        core.run_worker(
            a.property, a.tier, a.seed, a.worker, a.workers, a.out
        )
        return 0
    if a.replay:
        return core.replay(a.property, a.replay)
    return core.run_check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
