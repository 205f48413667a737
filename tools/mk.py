"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand, outputs committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NOT_APPLICABLE

with open(f'{V}/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
PY = '/opt/venv/bin/python'
checks = []
na = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'env VERIF_TIER=quick {PY} sim/main.py check {p["id"]}',
        'thorough_cmd': f'env VERIF_TIER=thorough {PY} sim/main.py check {p["id"]}',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': 'deterministic simulation with fault injection: ' + p['technique'],
        'level': p['level'],
        'level_note': p['level_note']})
m = {'version': 1,
     'setup_cmd': f'{PY} sim/main.py setup',
     'hooks': {'guard': 'VERIF_SIM_UNUSED', 'enable': 'no hooks are compiled into /repo: every seam (clock, timers, signals, '
               'agenda, set order, hash seeds, files, subprocesses) is reached from outside (constructor arguments, module '
               'attributes, sys.monitoring), so nothing has to be enabled', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'All commits in /repo are fix: commits (see known_findings.json). VERIF_REPO selects another tree for mutation '
              'testing; the registered commands always use /repo.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)

import jsonschema
for schema, docs in (('MANIFEST', [m]), ('PROPERTIES', [json.loads(l) for l in open(f'{V}/properties.jsonl')])):
    s = json.load(open(f'/root/.vp/{schema}.schema.json'))
    for d in docs: jsonschema.validate(d, s)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'n/a')
