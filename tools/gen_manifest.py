"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import registry  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CLAIMED:
        tech, note = registry.CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i} --thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by replaying their behaviours and '
               'by validating recorded executions; see DESIGN.md. No hooks in /repo are needed.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as h:
    json.dump(m, h, indent=1)
    h.write('\n')
print(len(checks), 'claimed', len(na), 'not')
