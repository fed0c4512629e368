#!/usr/bin/env python3
"""Runs the check of one property: run.py PROPERTY [quick|thorough] [--record-ok] | run.py --replay FILE."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
import props, props2, props4, props5, props6, props7


def main():
    if sys.argv[1] == "--replay":
        return core.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = props.PROPS[pid]
    scale = float(os.environ.get("VERIF_SCALE", "1" if tier == "quick" else "12"))
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    progs = d["gen"](rng, scale)
    return core.run_check(pid, progs, tier, seed, d["rule"], d.get("assumptions", ()), env=d.get("env"), record_ok="--record-ok" in sys.argv, extra=d.get("extra"))


sys.exit(main())
