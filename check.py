#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--phase NAME]"""
import os, sys, argparse, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "props"))


def main():
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--phase", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    import pbt
    mod = importlib.import_module(a.property.lower())
    sys.exit(pbt.main(mod, a.property, a.tier, seed, a.replay, a.phase, a.scale))


if __name__ == "__main__":
    main()
