#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [-v]: decide one property statically."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main(argv):
    from sa.report import Check
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('ANGLER_ROOT', '/repo')
    mod = importlib.import_module('checks.' + pid.lower())
    ck = Check(pid, tier, seed, root, verbose=1 if '-v' in argv else 2 if '-vv' in argv else 0)
    mod.run(ck)
    return ck.finish(1)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
