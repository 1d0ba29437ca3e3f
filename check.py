#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property of /repo's working tree (see DESIGN.md).

Environment: VERIF_TIER quick|thorough, VERIF_SEED.  Exit 0 / 1 as MANIFEST.json says.
"""
import os, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import concrete, verdict  # noqa: E402
try:
    import deduce
except ImportError:
    deduce = None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    with ThreadPoolExecutor(1) as ex:
        job = ex.submit(deduce.run, prop, tier) if deduce else None
        con = concrete.run(prop, tier, seed)
        ded = job.result() if job else None
    return verdict.conclude(prop, tier, seed, ded, con, t0)


if __name__ == "__main__":
    sys.exit(main())
