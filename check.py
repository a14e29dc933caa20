#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    prop = sys.argv[1]
    import checks
    w = core.Work(prop)
    try:
        return checks.CHECKS[prop](w)
    except core.CheckError as e:
        if w.viol and not w.errors:
            return w.finish("other", "stopped early: " + str(e)[:500])
        print("ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        w.close()


sys.exit(main())
