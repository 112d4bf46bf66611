"""
usage: check.py <property id> [--replay FILE]

Runs the monitors of one property against the working tree of /repo.  VERIF_TIER (quick, thorough) and VERIF_SEED
come from the environment.  Exit 0: held on everything observed.  Exit 1: a VIOLATION line.  Exit 2: no verdict.
"""
import os
import sys

if __name__ == '__main__':
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'LC_ALL': 'C.UTF-8',
            'TZ': 'UTC'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.environ.setdefault('MPLCONFIGDIR', '/tmp/ccnpy-mon-mpl')
        python = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
        os.execv(python, [python, '-X', 'pycache_prefix=/nonexistent/pycache', os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from mon.harness import main
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    sys.exit(main(prop, replay))
