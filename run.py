"""Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE] [--workers N]

The code under test is imported from the working tree in /repo (or $VERIF_REPO).
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
"""
import argparse
import os
import sys

for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'
os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HERE, os.path.join(REPO, 'src')]

from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--only', type=int)
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    code = core.main(args.property, tier, seed, args.replay, args.workers, args.only)
    sys.stdout.flush()
    os._exit(code)


main()
