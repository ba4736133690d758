"""Entry point: check.py C01 | worker ... | minimise ... | replay FILE."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import runner   # noqa: E402


def main():
    a = sys.argv[1:]
    if a[0] == 'worker':
        runner.worker(a[1], a[2], a[3], int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
        return 0
    if a[0] == 'minimise':
        return runner.do_minimise(a[1], a[2], a[3], float(a[4]))
    if a[0] in ('replay', 'replay-quiet'):
        return runner.do_replay(os.path.abspath(a[1]), a[0] == 'replay')
    if a[0] == 'smoke':
        return runner.smoke()
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return runner.check(a[0], tier, os.environ.get('VERIF_SEED', '1'))


if __name__ == '__main__':
    sys.exit(main())
