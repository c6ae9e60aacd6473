#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--scale X]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lb import core
from lb.checks import CHECKS


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    a.add_argument("--scale", type=float, default=1.0)
    o = a.parse_args()
    replay = json.load(open(o.replay)) if o.replay else None
    sys.exit(core.run_check(CHECKS[o.id], o.tier, o.seed, replay, o.scale))


if __name__ == "__main__":
    main()
