"""Writes MANIFEST.json from the registered properties (props.INFO)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in allp:
    if p in props.INFO:
        i = props.INFO[p]
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': i.get('technique', 'contract-based deductive verification (CBMC function contracts and loop invariants on the C sources)'),
                       'level': i['level'], 'level_note': i.get('note') or ('Trusted: ' + '; '.join(i['trusted']))})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': props.NOT.get(p, 'not built yet')} for p in allp if p not in props.INFO],
     'notes': 'check.py <id> mirrors /repo into a scratch directory, regenerates parser and scanner as the build does and discharges the contracts of the functions the property depends on; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
