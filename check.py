#!/usr/bin/env python3
"""check.py <property> : decides one property for /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, props


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    level, fn = props.PROPS[pid]
    ctx = core.Ctx(pid, tier, seed, level)
    try:
        fn(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
