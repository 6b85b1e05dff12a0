"""Writes MANIFEST.json from the property modules (run by hand after adding a check)."""
import ast, json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(os.path.join(ROOT, 'not_applicable.json')))
TECH = json.load(open(os.path.join(ROOT, 'techniques.json')))
checks = []
for p in sorted(TECH):
    src = ast.parse(open(os.path.join(ROOT, 'sim', p.lower() + '.py')).read())
    level = [n.value.value for n in src.body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL'][0]
    cmd = '/opt/venv/bin/python -B sim/run.py %s' % p
    checks.append({'property': p, 'quick_cmd': cmd,
                   'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd,
                   'technique': TECH[p][0], 'level': level, 'level_note': TECH[p][1]})
claimed = set(TECH)
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in claimed]
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B sim/selftest.py --quick',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. known_findings.json lists repaired and recorded defects.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
missing = set(ids) - claimed - set(NA)
assert not missing, missing
