#!/usr/bin/env python3
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import facts
    from core import Program
    from report import Report
    d = os.environ.get("VP_FACTS") or facts.ensure(fresh=a.tier == "thorough")
    P = Program(d)
    if a.tier == "thorough" and not os.environ.get("VP_FACTS"):
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    rc = 0
    for prop in a.property.split(","):
        R = Report(prop, a.tier)
        mod = importlib.import_module("rules." + prop.lower())
        mod.check(P, R)
        rc |= R.finish()
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException as e:      # an analysis that could not finish is no verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
