#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'crates/cryptovampire/src/'
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, level='exploration', **kw):
    assert len(title) <= 80, title
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[f if f.startswith('crates/') else S + f for f in files],
                                mechanism=[dict(name=n, where=w if w.startswith('crates/') else S + w) for n, w in mech],
                                observe_at=observe or ['the SMT file written by to-file'], hook_needed=None)),
              dict(property=pid, quick_cmd='./check.py %s' % pid, thorough_cmd='./check.py %s --thorough' % pid,
                   technique=technique, level=level, level_note=note)))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as h:
    for p, _ in P:
        h.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard=GUARD[0], enable=GUARD[1], source_commits=GUARD[2]),
           checks=[c for _, c in P], not_applicable=NA,
           notes='Each check rebuilds the tool from /repo and observes real runs of it; see DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
    json.dump(man, h, indent=1)
    h.write('\n')
import jsonschema
for p, _ in P:
    jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
for p, _ in P:
    for f in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
        assert os.path.exists('/repo/' + f), (p['id'], f)
print(len(P), 'properties')
