#!/usr/bin/env python3
'''mkseed.py spec.py: write /verif/seeded/<id>/ from a spec that defines
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text), LIB (bool)'''
import difflib, json, os, runpy, shutil, sys

for path in sys.argv[1:]:
    s = runpy.run_path(path)
    d = '/verif/seeded/' + s['ID']
    os.makedirs(d, exist_ok=True)
    out = ''
    byfile = {}
    for f, old, new in s['EDITS']:
        orig, cur = byfile.get(f) or (open('/repo/' + f).read(),) * 2
        assert cur.count(old) == 1, (f, old, cur.count(old))
        byfile[f] = (orig, cur.replace(old, new))
    for f, (a, b) in byfile.items():
        out += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    if s.get('LIB', True):
        shutil.copy(os.path.dirname(os.path.abspath(__file__)) + '/demo/demolib.py', d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['ID'])
