#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + '/properties.jsonl', 'w') as fh:
    for p in sorted(props.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        q = {k: v for k, v in p.items() if k != '_check'}
        a = q['anchors']
        q['anchors'] = dict(files=a['files'], mechanism=[dict(name=a['mechanism'], where=', '.join(a['files']))])
        fh.write(json.dumps(q) + '\n')
checks = []
for p in sorted(props.P, key=lambda p: p['id']):
    c = p.get('_check')
    if c:
        assert os.path.exists('%s/gra/checks/%s.py' % (R, p['id'].lower())), p['id']
        checks.append(dict(property=p['id'], quick_cmd='./check.sh %s --tier quick' % p['id'], thorough_cmd='./check.sh %s --tier thorough' % p['id'],
                           technique=c['technique'], level='other',
                           level_note=c['note'] + ' Trusts the abstract domain and the models of the Python built-ins and standard library (DESIGN.md).'))
m = dict(version=1, setup_cmd='python3 -B -c "import gra.check"', checks=checks, not_applicable=props.NA,
         notes='All checks are one static analyser (gra/) run on the sources in /repo/gopher_render; nothing of the package is imported or executed.')
with open(R + '/MANIFEST.json', 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')

# ---- DESIGN.md: properties, findings, planted changes
MARK = '<!-- the rest is written by tools/mk.py -->\n'
d = open(R + '/DESIGN.md').read().split(MARK)[0] + MARK + '\n## Properties\n'
na = {x['property']: x['reason'] for x in props.NA}
for p in sorted(props.P, key=lambda p: p['id']):
    c = p.get('_check')
    d += '\n* **%s %s** (%s; anchors: %s) — %s%s\n' % (
        p['id'], p['title'], c['technique'] if c else 'not applicable', p['anchors']['mechanism'],
        c['note'] + ' Bounds: ' + p['quantifier']['text'] + '. Tests: ' + p['why_tests_cant'] if c else na[p['id']], '')
d += '\n' + open(R + '/tools/design_notes.md').read()
d += '\n## Planted changes\n\nIn `seeded/`; each was confirmed to pass the tests and to fail its demonstration. The check of its property reports it unless noted.\n'
for n in sorted(os.listdir(R + '/seeded')):
    if not os.path.exists('%s/seeded/%s/meta.json' % (R, n)):
        continue
    x = json.load(open('%s/seeded/%s/meta.json' % (R, n)))
    note = getattr(props, 'SEED_NOTES', {}).get(n, '')
    d += '\n* `%s` (%s): %s; needs %s.%s' % (n, x['property'], x['what_it_breaks'], x['needs'], ' ' + note if note else '')
open(R + '/DESIGN.md', 'w').write(d + '\n')
