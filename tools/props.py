#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note, level='proof', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=technique, _n=note, _l=level))
    if na:
        NA.append(dict(property=id, reason=na))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
nas = {n['property'] for n in NA}
man = dict(version=1, setup_cmd='./check.sh T01 quick', checks=[
    dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
         evidence_file='evidence/%s.json' % p['id'], technique=p['_t'], level=p['_l'], level_note=p['_n'])
    for p in sorted(PROPS, key=lambda p: p['id']) if p['id'] not in nas],
    not_applicable=NA,
    notes='All checks read the type-checked MIR of the current /repo tree through a rustc_private driver (driver/main.rs, compiled on first use) and never run code of /repo. No hooks are needed in /repo.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
