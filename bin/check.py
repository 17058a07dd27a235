#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        vp.build()
        mod = importlib.import_module("checks")
        c = vp.Check(prop, tier)
        try:
            getattr(mod, prop)(c)
        except vp.Crashed:
            pass
        c.finish()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)

if __name__ == "__main__":
    main()
