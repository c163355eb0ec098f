#!/opt/venv/bin/python
"""Usage: check.py PROPERTY [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('MDPO_SRC', '/repo/src'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    from harness import findings, registry
    from harness.core import Check
    chk = Check(a.prop, a.tier, a.seed)
    mod, fn = registry.CHECKS[a.prop]
    getattr(importlib.import_module(f'harness.{mod}'), fn)(chk)
    findings.probe(chk)
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
