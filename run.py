#!/usr/bin/env python3
"""run.py CHECK [options]: run one check (see lib/vf.py) against the working tree of /repo."""
import glob
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('UDAPI_VERIF_ENV') != '1':
    # One fixed environment: the interpreter of the project, no bytecode, fixed hashing and encoding.
    env = dict(os.environ, UDAPI_VERIF_ENV='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/no-pycache', PYTHONHASHSEED='0', PYTHONUTF8='1', PYTHONWARNINGS='ignore',
               PYTHONPATH=os.environ.get('UDAPI_REPO', '/repo'))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('UDAPI_REPO', '/repo'))

if len(sys.argv) < 2:
    sys.exit('usage: run.py CHECK [--tier quick|thorough] [--seed N] [--only WORKLOAD] [--replay FILE]')
from lib import vf   # noqa: E402
mods = glob.glob(os.path.join(HERE, 'checks', sys.argv[1].lower() + '_*.py'))
if len(mods) != 1:
    sys.exit(f'no such check: {sys.argv[1]}')
sys.exit(vf.main(os.path.basename(mods[0])[:-3], sys.argv[2:]))
