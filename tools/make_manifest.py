"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib.util, json, os, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(home, 'tools'))
from manifest_data import TECH, NOT_APPLICABLE, HOOKS  # noqa
props = [json.loads(l)['id'] for l in open(os.path.join(home, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NOT_APPLICABLE:
        na.append({'property': p, 'reason': NOT_APPLICABLE[p]})
    elif os.path.exists(os.path.join(home, 'checks', p.lower() + '.py')):
        tech, note = TECH[p]
        checks.append({
            'property': p,
            'quick_cmd': './run.sh {} quick'.format(p),
            'thorough_cmd': './run.sh {} thorough'.format(p),
            'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'Runtime monitoring of the real code; see DESIGN.md.'}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(home, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
