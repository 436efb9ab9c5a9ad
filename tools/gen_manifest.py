#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py and properties.jsonl."""
import importlib.util, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
extra = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'] + '.py')
    if os.path.exists(f):
        s = importlib.util.spec_from_file_location(p['id'], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        checks.append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=p['id'], reason=extra.get(p['id'], 'no check yet')))
man = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
           notes='TLA+ specifications in spec/, checked with TLC; conformance harnesses in harness/ are built from /repo by every check; see DESIGN.md.')
hooks = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(hooks):
    man['hooks'] = json.load(open(hooks))
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
