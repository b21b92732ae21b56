#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  -- static checks over /repo's current working tree"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from rk.report import Ctx
from rk.ir import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if pid == '--setup':
        from rk import build
        build.tool()
        build.bitcode(build.lib_sources())
        print('ready')
        return 0
    try:
        mod = importlib.import_module('rk.checks.' + pid.lower())
        return mod.run(Ctx(pid, tier))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())
