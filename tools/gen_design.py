'''Regenerate DESIGN.md from tools/design.in.md, seeded/*/meta.json and known_findings.jsonl'''
import glob
import json
import os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = '''## Planted bugs

Each is caught (exit 1) by the quick check of the property it is planted against; `tools/seedtest.sh` in the scratch copies
confirms demo 0/1, unedited tests and detection.

| seed | caught by | needs |
|---|---|---|
'''
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m))
    t += f'| {m.split("/")[1]} | {d["property"]} | {d["needs"].strip().replace("|", "/")} |\n'
k = [json.loads(x) for x in open('known_findings.jsonl') if x.startswith('{')]
fixed = [x for x in k if x['status'] == 'fixed']
by = ', '.join(f'{q} {sum(x["property"] == q for x in fixed)}' for q in sorted({x['property'] for x in fixed}))
t += f'''
## Findings

Repaired: {len(fixed)} defects (list with commits in known_findings.jsonl), by property: {by}.

Open:

'''
for x in k:
    if x['status'] == 'open':
        t += f'* **{x["property"]}**: {x["what"]}\n'
s = open('tools/design.in.md').read()
open('DESIGN.md', 'w').write(s.replace('@@TABLES@@\n', t))
