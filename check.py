#!/usr/bin/env python3
"""check.py <property id> | --setup : decides one property (see DESIGN.md). Exit 0 held, 1 violated, 2 check failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        core.build_java()
        core.build_driver()
        core.build_driver(race=True)
        return 0
    pid = sys.argv[1]
    os.environ["VERIF_PID"] = pid
    import props
    core.build_java()
    core.build_driver()
    c = core.Check(pid)
    props.CHECKS[pid](c)
    return c.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
