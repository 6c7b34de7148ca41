'''Nothing is compiled: check that the framework and the code under test can be imported.'''
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if sys.executable != PY and os.path.exists(PY) and not os.environ.get('VERIF_SETUP'):
    os.environ['VERIF_SETUP'] = '1'
    os.execv(PY, [PY, os.path.abspath(__file__)])
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo', HERE]
import curver  # noqa
from vlib import model, gen, runner  # noqa
for d in ('evidence', 'replays'): os.makedirs(os.path.join(HERE, d), exist_ok=True)
print('ready:', curver.__file__)
