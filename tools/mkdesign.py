"""Writes DESIGN.md from tools/design_head.md, the docstrings of the checks and seeded/*/meta.json."""
import ast
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = {p['id']: p for p in map(json.loads, open('properties.jsonl'))}
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
seeds = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[1], m))
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
out = [open('tools/design_head.md').read()]
for pid, p in sorted(props.items()):
    f = 'gsa/checks/%s.py' % pid.lower()
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('%s\n' % ast.get_docstring(t).strip())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            try:
                out.append('Assumptions and bounds: ' + '; '.join(ast.literal_eval(n.value)) + '.\n')
            except ValueError:
                pass
    if pid in man:
        out.append('Technique: %s. Level: %s.\n' % (man[pid].get('technique'), man[pid].get('level')))
    out.append('Why tests cannot: %s.\n' % p['why_tests_cant'])
    if pid in seeds:
        out.append('Planted: ' + '; '.join('`%s` (needs %s%s)' % (s, m['needs'].rstrip('.'), '; ' + caught[s] if s in caught else '')
                                           for s, m in seeds[pid]) + '.\n')
open('DESIGN.md', 'w').write('\n'.join(out))
print(len(out))
