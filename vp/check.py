# -*- coding: utf-8 -*-
"""python3 -m vp.check <ID>: decides one property on /repo's current sources."""
import importlib
import sys
import traceback
from . import core
from .registry import CHECKS


def main(argv):
    if len(argv) != 2 or argv[1] not in CHECKS:
        print("usage: python3 -m vp.check <%s>" % "|".join(sorted(CHECKS)))
        return 2
    pid = argv[1]
    rep = core.Report(pid)
    sys.setrecursionlimit(20000)
    mod, func = CHECKS[pid]["run"].split(":")
    try:
        getattr(importlib.import_module("vp." + mod), func)(rep)
    except core.Anchor as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        if rep.violations:
            # what was found before the failure is still a violation
            return rep.finish()
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv))
