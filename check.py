"""Run the static check of one property: python3 check.py C01 [--thorough]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import registry                                     # noqa: E402
from sa.poly import Exhausted                               # noqa: E402
from sa.framework import Session, Broken, finish            # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    s = Session(prop, tier, seed)
    fn, meta = registry.get(prop)
    try:
        fn(s)
    except Broken as e:
        finish(s, meta)
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    except Exhausted as e:
        s.oblige('remaining obligations', 'undecided', str(e))
    except Exception:
        traceback.print_exc()
        r = finish(s, meta)
        if r != 1:
            print('ANALYSIS BROKEN: internal error')
            return 2
        return r
    return finish(s, meta)


if __name__ == '__main__':
    sys.exit(main())
