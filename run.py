#!/usr/bin/env python3-vt
"""run.py C01 [--tier quick|thorough]: decides one property. Exit 0 held, 1 violated, 2 machinery error."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "lib")]
import engine
def main():
    a = sys.argv[1:]
    if a[0] == "--drive":
        engine.drive(a[1], a[2], int(a[3]), a[4], a[5]); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try: return engine.run_check(a[0], tier, seed)
    except engine.Machinery as e:
        print("MACHINERY ERROR (no verdict): %s" % e); return 2
sys.exit(main())
