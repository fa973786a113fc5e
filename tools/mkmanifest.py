"""Writes MANIFEST.json from properties.jsonl."""
import json
NA = {'P90': 'Asymptotic cost quantifies over run time; no sound static bound on workset/priority-queue operation counts is in reach for this template code.',
      'P91': 'Equality of verdicts and weights with a reference semantics on every input is an unbounded semantic equivalence; the checks P01-P09 and P13 decide the rules it rests on, not the equivalence itself.'}
NOTE = 'Every anchored function is summarised from the type-checked AST of the current source and compared with a reviewed effect table; equality is decided symbolically for all inputs, but that the tables imply the property is a review argument (DESIGN.md), not a mechanised proof.'
checks = []
na = []
for ln in open('properties.jsonl'):
    p = json.loads(ln); i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s' % i, 'thorough_cmd': 'python3 engine/check.py %s thorough' % i,
                   'technique': 'static analysis: guarded-effect abstract interpretation of the clang AST against reviewed effect tables, plus structural rules' + (', plus the grammar expanded from the PEGTL rule types' if i == 'P19' else ''), 'level': 'other', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import units; units.build_frontend()"', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
