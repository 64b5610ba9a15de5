"""python3 -m sa.run C03 [--tier quick|thorough]   (run in /verif)"""
import gc
import importlib
import os
import sys
import time
import traceback

from . import core, report


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    sys.setrecursionlimit(20000)
    gc.set_threshold(200000, 20, 50)      # the interpreters make many small tuples and few cycles
    mod = importlib.import_module("sa.checks." + prop.lower())
    try:
        repo = core.shared(core.REPO)
        res = report.Result(prop)
        mod.run(repo, res, tier)
        return report.finish(res, tier, getattr(mod, "LEVEL", "other"), mod.EXPLANATION, repo, t0)
    except core.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
