#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records below and props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import PROPS
REC = []; NA = []
def P(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    REC.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))
def N(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(V + '/records.py').read())
ids = [r['id'] for r in REC]; assert len(set(ids)) == len(ids)
REC.sort(key=lambda r: r['id'])
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in REC))
na = {n['property'] for n in NA}
for i in ids: assert (i in PROPS) != (i in na), i
for i in PROPS: assert i in ids, i
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[dict(property=r['id'], quick_cmd='python3 check.py %s --tier quick' % r['id'], thorough_cmd='python3 check.py %s --tier thorough' % r['id'],
    technique='bounded symbolic execution of the LLVM IR of the real code, decided by SMT (z3, QF_BV); counterexamples replayed natively',
    level='model_checking', level_note=('Holds for every value within the bounds: ' + PROPS[r['id']]['bounds'] + '. Outside the bounds nothing is claimed. Trusted: clang 18, the engine in engine/, z3; the stand-ins named in DESIGN.md.')) for r in REC if r['id'] in PROPS],
    not_applicable=NA, notes='One driver (check.py) for all properties; job tables in props.py; harnesses in harness/. No hooks in /repo: the only commits there are fixes.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(REC), 'properties', len(m['checks']), 'checks', len(NA), 'not applicable')

# ---- DESIGN.md: generated parts
import re, glob, subprocess
ORACLE = {}
exec(open(V + '/oracles.py').read())
def put(mark, body):
    global D
    assert '<!-- %s -->' % mark in D, mark
    D = re.sub(r'<!-- %s -->\n.*?<!-- end -->' % mark, lambda _: '<!-- %s -->\n%s<!-- end -->' % (mark, body), D, flags=re.S)
D = open(V + '/DESIGN.md').read(); b = ''
for r in REC:
    p = PROPS.get(r['id'])
    if not p: continue
    assert r['id'] in ORACLE, r['id']
    ev = V + '/evidence/%s.json' % r['id']; cost = ''
    if r['id'] in COST: cost = ' Quick: %s s.' % COST[r['id']]
    b += '**%s %s** (`harness/%s`; %s)\n: %s\n: Bounds: %s.%s\n\n' % (r['id'], r['title'], p['harness'], ', '.join('`%s`' % j['entry'] for j in p['jobs']), ORACLE[r['id']], p['bounds'], cost)
put('properties', b)
KF = [json.loads(l) for l in open(V + '/known_findings.jsonl') if l.strip()]
cl = lambda s: re.sub(r'^fixed: property=\w+ \w+ ', '', s)
put('fixes', ''.join('* %s `%s`: %s\n' % (k['property'], k['commit'], cl(k['what'])) for k in KF if k['status'] == 'fixed'))
put('known', ''.join('* %s `%s` (%s): %s\n' % (k['property'], k['entry'], k['kind'], k['what']) for k in KF if k['status'] == 'known'))
b = '| bug | property | what it breaks | needs | |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = json.load(open(f)); i = f.split('/')[-2]; b += '| %s | %s | %s | %s | %s |\n' % (i, s['property'], s['what_it_breaks'], s['needs'], 'missed at first: ' + MISSED[i] if i in MISSED else 'caught')
put('seeds', b)
open(V + '/DESIGN.md', 'w').write(D)
