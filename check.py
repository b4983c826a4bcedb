#!/usr/bin/env python3
"""python3 check.py ID [ID...]: run the static analyses of one property against /repo."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.report import Report, AnalysisBroken  # noqa: E402
from sa.registry import CHECKS                # noqa: E402


def main(prop):
    rep = Report(prop)
    spec = CHECKS[prop]
    broken = []
    for part in spec['parts']:
        mod, fn = part.split(':')
        try:
            getattr(importlib.import_module(f'sa.{mod}'), fn)(rep)
        except AnalysisBroken as e:
            broken.append(str(e))
    rc = rep.finish(spec['rule'], spec.get('min_proved', 1), 'other', spec.get('assumptions', ()), broken=broken)
    return rc


if __name__ == '__main__':
    rcs = []
    for a in sys.argv[1:]:
        try:
            rcs.append(main(a))
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            rcs.append(2)
    sys.exit(1 if 1 in rcs else max(rcs, default=2))
