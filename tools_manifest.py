"""Writes MANIFEST.json: claimed checks are those listed in CLAIMED (a check module must exist)."""
import json
from pathlib import Path
V = Path(__file__).parent
props = [json.loads(x) for x in open(V / 'properties.jsonl')]
TECH = {}
NOTE = {}
exec(open(V / 'tools_claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        assert (V / 'checks' / (i + '.py')).exists(), i
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': TECH[i], 'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V / 'MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
