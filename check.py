#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    import runner
    return runner.run(a.prop, 'thorough' if a.tier == 'thorough' else 'quick')


if __name__ == '__main__':
    sys.exit(main())
