#!/opt/venv/bin/python
"""Write DESIGN.md: the text below, the constants of the check modules, known_findings.json and seeded/."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)

INTRO = open('tools/design_intro.md').read()
TEXT = {}
key = None
for line in open('tools/design_props.md'):
    if line.startswith('## '):
        key = line[3:].strip()
        TEXT[key] = []
    elif key:
        TEXT[key].append(line.rstrip('\n'))
COST = json.load(open('tools/costs.json'))


def constants(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'BOUND', 'ASSUMPTIONS', 'TECHNIQUE'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


props = [json.loads(x) for x in open('properties.jsonl')]
known = json.load(open('known_findings.json'))
seeds = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    seeds[f.split('/')[1]] = json.load(open(f))
results = json.load(open('tools/seed_results.json'))

out = [INTRO.rstrip(), '', '# Properties', '']
for p in props:
    i = p['id']
    c = constants(glob.glob(f'checks/{i.lower()}_*.py')[0])
    b = c.get('BOUND', '')
    if isinstance(b, dict):
        b = f"quick: {b['quick']}. Thorough: {b['thorough']}"
    out += [f"## {i} {p['title']}", '', *'\n'.join(TEXT[i]).strip().splitlines(), '']
    out += [f"- **Explored:** {c['RULE']}.", f'- **Bounds:** {b}.']
    if c.get('ASSUMPTIONS'):
        out.append(f"- **Assumptions:** {'; '.join(c['ASSUMPTIONS'])}.")
    out.append(f"- **Cost (8 cores):** quick {COST['quick'].get(i, '?')} s, thorough {COST['thorough'].get(i, '?')} s.")
    for f in known['findings']:
        if f['property'] == i:
            out.append(f"- **Known finding** (`{f['sig']}`): {f['what']}.")
    fx = [f.split(None, 3)[2:] for f in known['fixed'] if f'property={i} ' in f]
    if fx:
        out.append('- **Defects found here and repaired:** ' + '; '.join(f'{w} ({h})' for h, w in fx) + '.')
    mine = [k for k, v in seeds.items() if v['property'] == i]
    if mine:
        out.append('- **Planted bugs:** ' + ', '.join(f"`{k}` ({results.get(k, 'caught')})" for k in mine) + '.')
    out.append('')
out += ['# Planted bugs', '', 'Each is in `seeded/<id>/` with its demonstration; the check of the named property reports it unless stated otherwise.', '',
        '| bug | property | needs | breaks | result |', '|---|---|---|---|---|']
for k, v in seeds.items():
    out.append(f"| {k} | {v['property']} | {v['needs']} | {v['what_it_breaks']} | {results.get(k, 'caught')} |")
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
