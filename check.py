#!/opt/venv/bin/python
'''check.py <property> [--replay FILE]: decide one property of /repo by monitoring its execution.'''
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
       'PYTHONPYCACHEPREFIX': '/nonexistent/verif-pycache'}

if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        # Never run from stale bytecode and never leave any in /repo.
        os.environ.update(ENV)
        python = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
        os.execv(python, [python, os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, '/repo')
    sys.path.insert(0, HERE)
    sys.set_int_max_str_digits(0)
    from vlib import runner
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    sys.exit(runner.main(sys.argv[1], replay))
