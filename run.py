#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: decides one property."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import argparse
import check, tlc, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.pid == "setup":
        tlc.classes()
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn, level, assumptions = props.PROPS[a.pid]
    c = check.Check(a.pid, a.tier, seed)
    if a.replay:
        return c.replay(a.replay)
    fn(c)
    return c.finish(level, assumptions)

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
