"""design.src.md + seeded/*/meta.json + table -> DESIGN.md"""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from table import NOT_APPLICABLE
s = open(V + '/tools/design.src.md').read()
rows = ['| bug | property | what it needs | caught by |', '|---|---|---|---|']
res = json.load(open(V + '/tools/caught.json'))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
na = '\n'.join(f'* **{k}**: {v}' for k, v in NOT_APPLICABLE.items()) or '(none)'
s = s.replace('%(MATRIX)s', '\n'.join(rows)).replace('%(NA)s', na)
open(V + '/DESIGN.md', 'w').write(s)
