"""python3-vt checks/run.py <property id> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

MODULES = {p: "transforms" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C16", "C17", "C18", "C19", "C21", "C22")}
MODULES.update({"C12": "dispatch", "C20": "cplx", "C13": "isa", "C11": "shared", "C14": "resources"})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    a = ap.parse_args()
    from sa import ir
    try:
        return importlib.import_module(MODULES[a.prop]).check(a.prop, a.tier)
    except ir.AnalysisBroken as e:
        print("ANALYSIS ERROR: %s" % e)
        traceback.print_exc()
        return 2


sys.exit(main())
