#!/usr/bin/env python3
import sys, traceback, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import checks
from vf.common import Check, Fatal


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        checks.CHECKS[pid](c)
        rc = c.finish()
    except Fatal as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


main()
