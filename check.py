#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.
Exit 0: it held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check could not give an answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, checks

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in checks.REGISTRY:
        print("usage: check.py {%s}" % "|".join(sorted(checks.REGISTRY)), file=sys.stderr)
        return 2
    prop = sys.argv[1]
    level, fn = checks.REGISTRY[prop]
    try:
        chk = vf.Check(prop, level)
        fn(chk)
        return chk.finish()
    except vf.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        vf.cleanup()

sys.exit(main())
