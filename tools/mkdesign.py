"""Assembles DESIGN.md: tools/design.head.md + one section per property (properties.jsonl, props.py, spec counts) + tools/design.tail.md + the table of planted bugs (seeded/*/meta.json, tools/caught.json)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import spec
from props import PROPS
NOTES = json.load(open(V + '/tools/design.notes.json'))
o = [open(V + '/tools/design.head.md').read()]
keys = {u: [k for k, _, _ in spec.read_file('%s/specs/%s.spec' % (V, u))] for u in ['values', 'automata', 'solver', 'cegar', 'nfaparser', 'bin']}
o.append('\n## Properties, one by one\n')
for ln in open(V + '/properties.jsonl'):
    p = json.loads(ln); i = p['id']
    o.append('### %s — %s\n' % (i, p['title']))
    if i not in PROPS:
        o.append('Not applicable: ' + NOTES[i] + '\n'); continue
    n = []
    for u, rx in PROPS[i].items():
        ks = [k for k in keys[u] if any(re.search(r, k) for r in rx)]
        n.append('%s: %d instantiations of %d functions' % (u, len(ks), len({k.split(' | ')[0] for k in ks})))
    o.append(NOTES[i] + '\n')
    o.append('Tables: ' + '; '.join(n) + '.\n')
o.append(open(V + '/tools/design.tail.md').read())
o.append('\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|')
try: C = json.load(open(V + '/tools/caught.json'))
except OSError: C = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), C.get(d, '?')))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
