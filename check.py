"""Entry point of every check: ./check <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import core  # noqa: E402


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--workers", type=int, default=0)
    args = parser.parse_args()
    if args.replay:
        return core.replay(args.property, args.replay)
    return core.run(args.property, args.tier, args.scale, args.workers)


if __name__ == "__main__":
    sys.exit(main())
