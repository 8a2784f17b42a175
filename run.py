#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def registry():
    from sim import registry as r
    return r.CHECKS


def main():
    prop = sys.argv[1]
    from sim import common
    cls = registry()[prop]()
    if cls.preload and "simio" not in os.environ.get("LD_PRELOAD", ""):
        env = dict(os.environ, LD_PRELOAD=common.shim(), PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"))
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    tier = common.tier_env()
    if "--thorough" in sys.argv:
        tier = "thorough"
    chk = cls(common.seed_env(), tier)
    if "--replay" in sys.argv:
        sys.exit(common.replay(chk, sys.argv[sys.argv.index("--replay") + 1]))
    sys.exit(common.run_check(chk))


if __name__ == "__main__":
    main()
