"""Makes a planted bug: plant.py FILE...  Each FILE is a Python file that sets ID, PROPERTY, EDITS = [(file, old, new)],
NEEDS, BREAKS, DEMO.  Confirms it in scratch copies, writes seeded/<id>/, and runs the property's check on it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = 'bde2f4a'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken; run in the repository
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$here/demo.py"
''' % PY


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(path, checks):
    ns = {}
    exec(open(path).read(), ns)
    ident, prop = ns['ID'], ns['PROPERTY']
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = tmp + '/repo'
        sh('cp -a /repo %s' % repo)
        new_commits = set(sh('git -C /repo log --format=%%H %s..HEAD' % BASE).stdout.split())
        for f, old, new in ns['EDITS']:
            p = repo + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: "%s" occurs %d times in %s' % (ident, old[:60], s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % repo).stdout
        original = 0
        for f in {e[0] for e in ns['EDITS']}:
            blame = sh('git -C /repo blame -l -s %s' % f).stdout.splitlines()
            cur = None
            for line in sh('git -C %s diff -U0 %s' % (repo, f)).stdout.splitlines():
                m = re.match(r'@@ -(\d+)', line)
                if m:
                    cur = int(m.group(1))
                elif line.startswith('-') and not line.startswith('---'):
                    h = blame[cur - 1].split()[0]
                    if not any(c.startswith(h.lstrip('^')[:30]) for c in new_commits):
                        original += 1
                    else:
                        return '%s: changes a line of a fix commit: %s' % (ident, line)
                    cur += 1
        if original == 0:
            return '%s: changes no original line' % ident
        demo = tmp + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib.py'), demo)
        open(demo + '/demo.sh', 'w').write(SH)
        a = sh('bash %s/demo.sh' % demo, cwd='/repo', timeout=280)
        b = sh('bash %s/demo.sh' % demo, cwd=repo, timeout=280)
        if a.returncode != 0:
            return '%s: demo fails on the unchanged tree:\n%s' % (ident, a.stderr[-1500:])
        if b.returncode == 0:
            return '%s: demo does not see the change' % ident
        t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 300 %s -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -15' % (repo, PY), cwd=repo)
        if ' passed' not in t.stdout or 'failed' in t.stdout or 'error' in t.stdout.splitlines()[-1]:
            return '%s: existing tests notice: %s' % (ident, t.stdout[-600:])
        out = '%s/seeded/%s' % (V, ident)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'lib.py', 'demo.sh'):
            shutil.copy(demo + '/' + f, out)
        shutil.rmtree(out + '/__pycache__', ignore_errors=True)
        json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        msg = '%s: kept (demo: %s)' % (ident, b.stderr.strip().splitlines()[-1][:90] if b.stderr.strip() else b.returncode)
        for c in ([prop] if checks is None else checks):
            r = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s' % (repo, c), cwd=V)
            hit = 'VIOLATION property=%s' % c in r.stdout
            msg += '\n   %s %s' % (c, 'CAUGHT' if hit and r.returncode == 1 else 'missed rc=%d %s' % (r.returncode, r.stdout[-300:] if r.returncode else ''))
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    if args and args[0].startswith('--checks='):
        checks = args.pop(0)[9:].split(',') if args[0] != '--checks=' else []
    for a in args:
        print(plant(a, checks), flush=True)
