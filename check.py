#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common


def main():
    prop = sys.argv[1]
    if prop == "setup":
        common.build_harness()
        common.build_smd()
        from vlib import files
        files.build_driver()
        return 0
    n = int(prop[1:])
    try:
        if n <= 13 or n in (22, 23):
            from vlib import render
            rep = render.check(prop)
        elif n == 14:
            from vlib import files
            rep = files.check(prop)
        else:
            from vlib import cli
            rep = cli.check(prop)
    except common.NoVerdict as e:
        print("no verdict: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rep.finish()


sys.exit(main())
