#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse, importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

if os.environ.get("PYTHONHASHSEED") is None:      # the order of sets must not depend on the run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa import core
    try:
        mod = importlib.import_module("rules." + a.property.lower())
        core.set_tier(a.tier)
        return core.main(a.property, mod.run, a.tier, seed, getattr(mod, "LIMITS", None))
    except core.AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s: %s" % (a.property, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())
