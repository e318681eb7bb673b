"""Writes /verif/MANIFEST.json from contracts/props.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/contracts')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt run.py --property {i} --tier quick',
            'thorough_cmd': f'python3-vt run.py --property {i} --tier thorough',
            'technique': p.get('technique', 'contract-based deductive verification of the real '
                               'Python source (obligations discharged by z3), with a bounded '
                               'cross-check that supplies failing inputs'),
            'level': p.get('level', 'proof'),
            'level_note': p['note'],
        })
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet: no contracts for it so far')}
      for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
