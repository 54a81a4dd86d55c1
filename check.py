#!/usr/bin/env python3-vt
"""check.py ID [--thorough]: decide one property on /repo's current tree"""
import os
import sys
import traceback
if os.environ.get('PYTHONHASHSEED') != '0':     # the same seed generates the same inputs
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import cv, registry


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if len(ids) != 1 or ids[0] not in registry.CHECKS:
        print('usage: check.py ID [--thorough]; ids: ' + ' '.join(sorted(registry.CHECKS)))
        sys.exit(2)
    c = registry.CHECKS[ids[0]]
    cv.build()
    rep = cv.Report(ids[0], c['level'])
    rep.rule = c['rule']
    try:
        c['run'](rep)
    except Exception:
        rep.trouble.append(traceback.format_exc())
    rep.finish()


if __name__ == '__main__':
    main()
