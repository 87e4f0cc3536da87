#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.spec import Report
from checks import REGISTRY

def main():
    prop = sys.argv[1]
    mod, fn = REGISTRY[prop]
    R = Report(prop, os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    m = importlib.import_module("checks." + mod)
    try:
        rc = getattr(m, fn)(R)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc)
main()
