#!/usr/bin/env python3
'''Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist.'''
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
if os.path.exists(os.path.join(V, 'tools', 'not_applicable.json')):
    NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))


def meta(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE') if isinstance(getattr(node, 'targets', [None])[0], ast.Name) else False:
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
files = os.listdir(os.path.join(V, 'checks'))
for pr in props:
    pid = pr['id']
    f = [x for x in files if x.startswith(pid.lower() + '_') and x.endswith('.py')]
    if not f:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
        continue
    m = meta(os.path.join(V, 'checks', f[0]))
    checks.append(
        {
            'property': pid,
            'quick_cmd': f'./check {pid} quick',
            'thorough_cmd': f'./check {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': m['TECHNIQUE'],
            'level': m['LEVEL'],
            'level_note': m['NOTE'],
        }
    )
man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
