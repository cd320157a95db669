"""Writes MANIFEST.json: one check per module in vf/checks, the rest not applicable (yet)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
DEFAULT = ('symbolic execution of the real Python/JAX code (jaxpr interpretation), obligations over all inputs '
           'within bounds decided by exact polynomial normal forms and Z3; counterexamples replayed on the real stack')
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'vf', 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'./check.sh {p} --tier quick', 'thorough_cmd': f'./check.sh {p} --tier thorough',
                       'technique': TECH.get(p, DEFAULT), 'level': 'model_checking',
                       'level_note': 'bounded symbolic checking: every obligation holds for all real-valued inputs in the '
                                     'stated ranges on meshes and step counts of the stated size; see DESIGN.md'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks}
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
