#!/usr/bin/env python3
"""Entry point of every check:  check.py <property id> [--tier quick|thorough] [--replay FILE] [--shards N] [--scale F]

Runs under whatever python starts it and re-executes itself with the interpreter that has bathygrid's dependencies.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'PROJ_NETWORK': 'OFF', 'TZ': 'America/St_Johns', 'PYTHONIOENCODING': 'utf-8', 'PYTHONHASHSEED': '0',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1',
       'BGV_ENV': '1'}

if sys.argv[1:] == ['--setup']:
    # nothing is built ahead: every check imports the package from /repo's working tree when it starts
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    sys.exit(0)

if os.environ.get('BGV_ENV') != '1':
    env = dict(os.environ)
    env.update(ENV)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from bgv.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
