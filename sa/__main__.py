"""python3 -m sa <property id> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback
import warnings

from .loader import Broken
from .report import Report

warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from . import checks
    fn = checks.load(a.property)
    try:
        return fn(a.tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (a.property, e))
        return 2
    except Exception as e:
        # report what was established before the part that could not be read
        traceback.print_exc()
        rep = Report.last
        if rep is None:
            print('ANALYSIS-BROKEN property=%s: internal error' % a.property)
            return 3
        rep.undecide('rest of the analysis', '%s: %s' % (type(e).__name__, e))
        return rep.finish('other', 'PARTIAL: the analysis stopped at code it could not read; see undecided')


if __name__ == '__main__':
    sys.exit(main())
