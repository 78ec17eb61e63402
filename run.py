#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--dev]      decide one property on /repo's current tree
   run.py <property> --replay <file>               run one recorded violation again
   run.py --setup                                  build everything once"""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vlib import *
import checks

def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        build_lib()
        for c in sorted({d for k in checks.ALL.values() for d in k().drivers_used()}):
            build_driver(c)
        print("setup done"); return 0
    c = checks.ALL[a[0]]()
    if "--replay" in a:
        return c.replay(a[a.index("--replay") + 1])
    tier = a[1] if len(a) > 1 and a[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return c.run(tier, seed, "--dev" in a)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (a[0], e)); return 2
    except Exception:
        traceback.print_exc(); return 2

sys.exit(main())
