"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and engine/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.spec import P
from engine.props import PROPS

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                              observe_at=list(p['observe']), hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the checks compile the unmodified sources', source_commits=[]),
         checks=[], not_applicable=[])
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    c = PROPS[p['id']]
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt -m engine.run %s --tier quick' % p['id'],
                            thorough_cmd='python3-vt -m engine.run %s --tier thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique='symbolic execution of the LLVM IR of the real sources, decided by SMT (z3, cvc5)',
                            level='model_checking', level_note=p['note']))
m['notes'] = 'See DESIGN.md. Known and fixed findings: known_findings.json.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
from tools.how import HOW
sec = []
for p in P:
    if p['na']:
        sec.append('**%s %s** — not applicable: %s\n' % (p['id'], p['title'], p['na']))
        continue
    c = PROPS[p['id']]
    sec.append('**%s %s.** %s\n*Bounds:* %s. *Outside:* %s.\n' % (p['id'], p['title'], HOW[p['id']], c.get('bounds', ''), c.get('outside', '')))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| change | what it needs | caught by |', '|---|---|---|']
sd = V + '/seeded'
for i in sorted(os.listdir(sd)):
    meta = json.load(open('%s/%s/meta.json' % (sd, i)))
    rows.append('| %s | %s | %s |' % (i, meta['needs'], caught.get(i, 'not tried yet')))
t = open(V + '/tools/DESIGN.in.md').read().replace('PROPS\n', '\n'.join(sec)).replace('SEEDED\n', '\n'.join(rows) + '\n')
open(V + '/DESIGN.md', 'w').write(t)
