"""Writes MANIFEST.json for the check modules that are there."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLES = {
 'C01': 'file octets compared with four readings of the recorded packets (library over objects, octets, directory; independent reader)',
 'C02': 'length monitor on every packet at the packet output, with an independent codec',
 'C03': 'graph checker over the recorded packets (reachability, multiplicity, degree, order)',
 'C04': 'annotation checker: sums recomputed from the recorded packets by the independent reader',
 'C05': 'independent encoder and decoder of the CCNx and FLIC formats, both directions',
 'C06': 'crash, hang and round-trip monitor over mutated and generated octets (fuzzing)',
 'C07': 'SHA-256 and equality oracles over packets and their reparsed, saved and altered variants',
 'C08': 'independent signature verification and tamper detection monitor (fault injection on signed packets)',
 'C09': 'tamper detection monitor: every alteration of an encrypted manifest must raise an error',
 'C10': 'leak checker over recorded packets, independent AES-GCM and AES-CCM decryption of every manifest',
 'C11': 'nonce and key uniqueness checker over recorded encryptions across objects, threads of use and processes',
 'C12': 'independent RSA-OAEP unwrapping and tamper detection monitor',
 'C13': 'independent RFC 5869 implementation and key separation checker on recorded encryptions',
 'C14': 'naming, numbering and labelling checker over the recorded packets',
 'C15': 'fault enumeration on the packet store, prefix-and-error oracle on the reader output',
 'C16': 'model-based checker: store operations against a dictionary, directory listings and a socket log',
 'C17': 'request log of the reader against scopes computed by a reference interpreter of name constructors',
 'C18': 'exhaustive-search oracle for the plan, uniqueness checker for manifest numbers',
 'C19': 'number and description checker over the recorded packets of several files',
 'C20': 'command line tools run as processes; file, exit status and output oracles with fault injection',
 'C21': 'value round trip through packets, boundary and out-of-range monitors',
 'C22': 'differential monitor: recorded packet logs of repeated builds, in and across processes',
 'C23': 'model-based checker: key store operations against a dictionary; PEM key round trips',
 'C24': 'request, write, count and graph logs of the traversal against the reference walk',
 'C25': 'snapshot monitor: octets, hash and values of every object around random sequences of observations',
 'C26': 'interleaved builds and reads against the same builds and reads alone',
 'C27': 'write log order checker and fault enumeration on the packet output and the input file',
}
TECH = ('runtime monitoring: real code under seeded random, hostile and boundary workloads; '
        'deciding oracle: ')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(V, 'mon', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    src = open(f).read()
    level = re.search(r"^LEVEL = '(.*)'", src, re.M).group(1)
    oracle = ORACLES[p['id']]
    note = re.search(r"^LEVEL_NOTE = \(?((?:\s*'.*'\n?)+)", src, re.M)
    note = ''.join(re.findall(r"'(.*)'", note.group(1))) if note else \
        'Held on every execution observed; nothing is claimed for inputs the workloads do not generate.'
    checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}',
                   'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
                   'technique': TECH + oracle, 'level': level, 'level_note': note,
                   'evidence_file': f'evidence/{p["id"]}.json'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'All checks are python3 check.py <id>; see DESIGN.md. No hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
