#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough]. Exit 0 held, 1 VIOLATION, 2 analysis broken."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        import simple
        if prop in simple.CHECKS:
            return simple.CHECKS[prop](tier)
        import ops
        return ops.check(prop, tier)
    except ir.AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN: internal error')
        return 2


if __name__ == '__main__':
    sys.exit(main())
