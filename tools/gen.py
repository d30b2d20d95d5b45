#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
import table
import re
REPO = os.environ.get('VP_REPO', '/repo')
def where(name, files):
    for f in files:
        q = os.path.join(REPO, f)
        if os.path.isfile(q) and re.search(r'(?<!\w)' + re.escape(name) + r'(?!\w)', open(q, encoding='latin-1').read()): return f
    return files[0]
def mech(p): return [dict(name=x, where=where(x, p['files'])) for x in re.split(r', (?![^(]*\))', p['mech'])]
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=mech(p), **({'observe_at': p['obs']} if 'obs' in p else {})))) + '\n')
        assert len(p['title']) <= 80, p['title']
checks = []
for p in table.PROPS:
    if p.get('na'): continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
        thorough_cmd='python3-vt check.py %s thorough' % p['id'], technique=p['tech'], level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks,
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in table.PROPS if p.get('na')],
    hooks=dict(guard='none', enable='no hooks are needed: checks compile /repo sources as they are', source_commits=[]),
    notes='Engine A: CBMC over libgst C sources. Engine B: symbolic execution (z3) of the Smalltalk kernel sources. See DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
