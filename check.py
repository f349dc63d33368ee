#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
import props


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        core.TIER = sys.argv[2]
    c = core.Check(prop)
    try:
        core.build()
        c.log("harness built")
        getattr(props, prop)(c)
        code = c.finish()
    except core.ToolError as e:
        print("ERROR: " + str(e), flush=True)
        # A violation that has been established counts even if a later stage failed.
        code = c.finish() if c.violations else 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)


main()
