#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        level = checks.CHECKS[pid](ctx) or "model_checking"
        rc = ctx.finish(level)
    except vlib.Broken as e:
        ctx.violation(*e.args)
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
