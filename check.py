#!/usr/bin/env python3
"""check.py <property> [--replay FILE]"""
import os
import sys

VENV = '/opt/vp/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.executable != VENV and os.environ.get('DV_INNER') != '1':
    env = dict(os.environ, DV_INNER='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               NUMBA_DISABLE_JIT='1', MPLBACKEND='Agg', OMP_NUM_THREADS='2',
               PYTHONNOUSERSITE='1', MPLCONFIGDIR='/tmp')
    os.execve(VENV, [VENV, '-W', 'ignore', __file__] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)


def main():
    from dv import runner
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--replay' in sys.argv:
        return replay(pid, sys.argv[sys.argv.index('--replay') + 1])
    return runner.main(pid, tier, seed)


def replay(pid, path):
    import json
    import importlib
    from dv import loader, runner
    d = json.load(open(path))
    loader.setup()
    mod = importlib.import_module(f'props.{pid}')
    for ct in mod.CONTRACTS:
        if ct.name == d['contract'] and hasattr(ct, 'spec'):
            if ct.load:
                ct.load()
            tag, given = d.get('run') or (1, d['inputs'])
            s, c, f = runner._concrete(ct, given, tag)
            if s != 'fail':     # the same inputs, taken from the file instead of the generator
                s, c, f = runner._concrete(ct, d['inputs'], 1)
            print(s, f if f else '')
            return 1 if s == 'fail' else 0
    print('contract not found or not replayable this way')
    return 0


sys.exit(main())
