#!/usr/bin/env python3
"""Decide one property on /repo's current source: python3 check.py C01"""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
import facts, report


def main():
    prop = sys.argv[1]
    rep = report.Report(prop)
    try:
        mod = importlib.import_module(prop.lower())
        report.LEVEL[prop] = getattr(mod, "LEVEL", "proof")
        mod.check(rep)
    except facts.ToolError as e:
        print("ERROR: " + str(e))
        return 2
    except Exception as e:
        # the argument could not be completed on this tree: nothing is shown, so it is not passed
        tb = traceback.extract_tb(e.__traceback__)[-1]
        traceback.print_exc()
        rep.violate("analysis:" + type(e).__name__, "the analysis could not be completed: %s (%s:%d)" % (e, os.path.basename(tb.filename), tb.lineno))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
