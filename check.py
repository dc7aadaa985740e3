#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property from /repo's current source.
exit 0 held / 1 VIOLATION / 2 analysis broken"""
import os, sys, time, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa", "checks"))
import core, report

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        if pid == "setup":
            core.build_tools()
            return 0
        mod = importlib.import_module(pid.lower())
        res = mod.run(tier)
        return report.finish(res, tier, seed, t0)
    except core.AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    finally:
        core.cleanup()

sys.exit(main())
