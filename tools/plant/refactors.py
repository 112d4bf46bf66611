"""Applies each behaviour-preserving edit of tools/refactor to a scratch copy and runs the checks on it: all must stay quiet.

python3 tools/plant/refactors.py [--checks=C01,C02] [NAME...]
"""
import glob
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids = [f'C{i:02d}' for i in range(1, 28)]
names = []
for a in sys.argv[1:]:
    if a.startswith('--checks='):
        ids = a[9:].split(',')
    else:
        names.append(a)
bad = 0
for f in sorted(glob.glob(os.path.join(V, 'tools', 'refactor', '*.diff'))):
    n = os.path.basename(f)[:-5]
    if names and n not in names:
        continue
    d = f'/tmp/refactor-{os.getpid()}-{n}'
    shutil.copytree('/repo', d, symlinks=True)
    try:
        subprocess.run(['git', 'apply', f], cwd=d, check=True)
        loud = []
        for i in ids:
            r = subprocess.run(['python3', 'check.py', i], cwd=V, env={**os.environ, 'VERIF_REPO': d, 'VERIF_TIER': 'quick'}, capture_output=True, text=True)
            if r.returncode or 'VIOLATION' in r.stdout:
                loud.append(i)
                print(n, i, r.returncode, (r.stdout + r.stderr)[:600], flush=True)
        bad += bool(loud)
        print(n, 'LOUD ' + ' '.join(loud) if loud else 'quiet', flush=True)
    finally:
        shutil.rmtree(d)
sys.exit(bool(bad))
