#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--dump]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
import report

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        import facts
        facts.build_tool()
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    import glob
    m = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(m) != 1:
        sys.exit("no check for " + pid)
    mod = importlib.import_module("checks." + os.path.basename(m[0])[:-3])
    report.main(pid, tier, mod, "--dump" in sys.argv)
