#!/usr/bin/env python3
"""regenerates MANIFEST.json from the list below and gqv/props.py"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = open(V + '/gqv/props.py').read()
claimed = re.findall(r"^    '(C\d+)':", src, re.M)
NOTE = {}
NA = {}
exec(open(V + '/tools/notes.py').read())
checks = []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': NOTE[i][0], 'level': 'model_checking', 'level_note': NOTE[i][1]})
m = {'version': 1, 'setup_cmd': 'python3-vt -m gqv.build a b na nb', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'check under construction')} for p in props if p['id'] not in claimed or p['id'] in NA],
     'notes': 'No hooks in /repo: the checks use the public API only, through the harness crates in /verif/harness.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
