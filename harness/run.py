"""usage: run.py C01 [--sub NAME ...] [--scale X] [--seed N]   |   run.py --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    core.reexec()
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--sub', nargs='*')
    p.add_argument('--scale', type=float, default=1.)
    p.add_argument('--seed', type=int, default=None)
    p.add_argument('--replay')
    a = p.parse_args()
    if a.replay:
        return core.replay(a.replay)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    return core.run_property(a.property, tier, seed, a.sub, a.scale)


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
