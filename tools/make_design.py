"""Writes DESIGN.md from design.in.md, the properties, the check modules, the findings and the planted bugs."""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
MISSED = set(open(os.path.join(V, 'tools', 'missed_at_first.txt')).read().split())


def props():
    out = []
    tech = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        m = importlib.import_module('mon.checks.' + p['id'].lower())
        kinds = ', '.join(f'{k} {a}/{b}' for k, (_, a, b) in m.KINDS.items())
        least = ', '.join(f'{k} {v}' for k, v in m.MINIMUM.items())
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Oracle.* {tech[p['id']]['technique'].split('deciding oracle: ')[1]}.\n"
                   f"*How.* {m.RULE}\n*Why this reaches further than tests.* {p['why_tests_cant']}\n"
                   f"*Cases (quick/thorough).* {kinds}. *A run must have seen at least* {least}." +
                   (f"\n*Assumptions.* {m.ASSUMPTIONS}" if isinstance(getattr(m, 'ASSUMPTIONS', None), str) else
                    ''.join('\n*Assumption.* ' + a for a in getattr(m, 'ASSUMPTIONS', []))) + '\n')
    return '\n'.join(out)


def fixes():
    k = json.load(open(os.path.join(V, 'known_findings.json')))
    rows = k['fixed'] if isinstance(k, dict) else k
    out = [f'{len(rows)} genuine defects were found and repaired:', '']
    for r in rows:
        out.append('* ' + (r if isinstance(r, str) else json.dumps(r)))
    return '\n'.join(out)


def seeded():
    out = ['| planted bug | breaks | needs |', '|---|---|---|']
    ds = sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))
    for f in ds:
        i = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        out.append(f"| {i}{'*' if i in MISSED else ''} | {m['what_it_breaks']} | {m['needs']} |".replace('\n', ' '))
    out += ['', 'All are caught by the quick check of their property (the first three characters of the name).']
    return '\n'.join(out), len(ds)


s = open(os.path.join(V, 'tools', 'design.in.md')).read()
t, n = seeded()
for a, b in {'PROPS': props(), 'FIXES': fixes(), 'NSEEDED': str(n), 'SEEDED': t}.items():
    s = s.replace(f'@@{a}@@', b)
assert '@@' not in s, s[s.index('@@'):][:30]
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
