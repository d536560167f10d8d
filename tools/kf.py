#!/usr/bin/env python3
'''kf.py PROPERTY TEXT [COMMIT]: record a repaired defect (default: last commit of /repo)'''
import json
import subprocess
import sys

p, text = sys.argv[1:3]
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
with open('/verif/known_findings.jsonl', 'a') as f:
    f.write(json.dumps({'status': 'fixed', 'property': p, 'commit': h, 'what': f'fixed: property={p} {h} {text}'}) + '\n')
