#!/usr/bin/env python3
"""Run one static check: check.py <property> [quick|thorough]."""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.core import run_check  # noqa: E402


def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        from sa.repo import Repo

        r = Repo()
        print(f'{len(r.modules)} modules, {len(r.funcs)} functions parsed')
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(f'sa.rules.{prop.lower()}')
    return run_check(
        prop, mod.run, tier, getattr(mod, 'LEVEL', 'other'), getattr(mod, 'EXPLANATION', '')
    )


if __name__ == '__main__':
    sys.exit(main())
