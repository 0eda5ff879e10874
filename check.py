#!/usr/bin/env python3-vt
"""check.py <property id> --tier quick|thorough"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import specs  # noqa: E402
from vc import run  # noqa: E402


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('specs.' + specs.PROPS[prop])
    sys.exit(run.main(prop, tier, mod))


if __name__ == '__main__':
    main()
