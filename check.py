#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property from /repo's current source. See DESIGN.md."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'an'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    if prop == 'setup':
        core.build_tool(); return 0
    try:
        mod = importlib.import_module(prop.lower())
        return mod.run(tier)
    except core.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % prop); return 2


sys.exit(main())
