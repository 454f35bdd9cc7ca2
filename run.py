#!/usr/bin/env python3
"""Run the check of one property: run.py <ID>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.program import AnalysisBroken, load
from checks import registry
from checks.report import Report


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in registry.CHECKS:
        print("usage: run.py <%s>" % "|".join(sorted(registry.CHECKS)))
        return 3
    prop = sys.argv[1]
    rep = Report(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "0") or 0))
    try:
        prog = load()
        registry.run(prop, prog, rep)
    except AnalysisBroken as e:
        if rep.viol:
            rc = rep.finish()
            if rc == 1:
                print("note: analysis stopped early: %s" % e)
                return 1
        print("ANALYSIS-BROKEN: property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: property=%s internal error" % prop)
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
