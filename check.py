#!/usr/bin/env python3
"""check.py PROPERTY | check.py --replay FILE"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simlib.common import *
from simlib import props


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return props.replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in props.CHECKS:
        print(__doc__, 'known:', ' '.join(sorted(props.CHECKS)), file=sys.stderr)
        return 2
    try:
        return props.CHECKS[sys.argv[1]]()
    except CheckError as e:
        print('CHECK-ERROR:', e, file=sys.stderr)
        return 3


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
