"""Runs the checks on the planted bugs again: recheck.py [--checks=C01,C02] [ID...]  One scratch copy of /repo per bug, three at a time."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(ident, checks):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, ident)))
    tmp = tempfile.mkdtemp(prefix='recheck-')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        r = subprocess.run(['git', '-C', repo, 'apply', '%s/seeded/%s/patch.diff' % (V, ident)], capture_output=True, text=True)
        if r.returncode:
            return '%s: does not apply: %s' % (ident, r.stderr)
        # the checks write evidence beside themselves: run them from a copy
        mine = tmp + '/verif'
        os.mkdir(mine)
        for n in ('check.py', 'mon', 'known_findings.json', 'properties.jsonl', 'MANIFEST.json'):
            subprocess.run(['cp', '-a', '%s/%s' % (V, n), mine], check=True)
        out = []
        for c in checks or [meta['property']]:
            r = subprocess.run([sys.executable, 'check.py', c], cwd=mine, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            lines = [x for x in r.stdout.splitlines() if 'VIOLATION property=%s' % c in x]
            out.append('%s %s' % (c, 'CAUGHT' if lines and r.returncode == 1 else 'missed rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-400:] if r.returncode else '')))
        return '%s: %s' % (ident, '; '.join(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    if args and args[0].startswith('--checks='):
        checks = args.pop(0)[9:].split(',')
    with ThreadPoolExecutor(3) as ex:
        for line in ex.map(lambda i: one(i, checks), args or sorted(os.listdir(V + '/seeded'))):
            print(line, flush=True)
