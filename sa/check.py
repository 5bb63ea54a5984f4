#!/usr/bin/env python3
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Broken  # noqa
from report import Check  # noqa


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    try:
        mod = importlib.import_module('rules.' + prop.lower())
        ck = Check(prop)
        rc = mod.run(ck)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 3
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-5:]))
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        return 3
    return rc


if __name__ == '__main__':
    sys.exit(main())
