"""Writes MANIFEST.json from the check modules that exist."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'needs the group law on arbitrary curves as an algebraic theorem (the order of P being q makes z1*P + z2*Q = k*P); '
           'no dataflow or term argument over the source yields it, and trying keys would be testing. Its ingredients are decided '
           'under C24, C25, C27 and C28',
    'N02': 'execution time of CPython integers and table lookups is not determined by the source; only the comparison helpers have a '
           'static formulation, which is C29',
    'N03': 'a statistical property of hash outputs, not of the program text; what the program must do is decided under C21 and C16',
}
TECH = {}
LEVEL_NOTE = {}
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())

checks = []
pending = []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if i in NA:
        continue
    if os.path.exists(os.path.join(V, 'gsa', 'checks', i.lower() + '.py')) and i in TECH:
        checks.append({
            'property': i, 'quick_cmd': 'python3 -m gsa ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 -m gsa ' + i,
            'technique': TECH[i], 'level': 'other', 'level_note': LEVEL_NOTE.get(i, COMMON)})
    else:
        pending.append({'property': i, 'reason': 'the check is not built yet'})
m = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q gsa',
    'checks': checks,
    'not_applicable': pending + [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'All checks analyse the syntax trees of /repo/gostcrypto; the package is never imported or run. '
             'KNOWN_FINDINGS.txt lists repaired and recorded defects.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', [p['property'] for p in pending])
