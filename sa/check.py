#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: run one static check against /repo's current sources.

exit 0 holds, 1 violation (with a VIOLATION line), 2 no verdict (sources do not compile or an
anchor the rule needs is gone)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = common.Report(prop, tier)
    try:
        mod = importlib.import_module('rules.' + prop.lower())
        mod.run(rep, tier)
        rc = common.finish(rep, seed)
    except common.AnalysisBroken as e:
        print('%s: no verdict: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('%s: no verdict: internal error' % prop)
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
