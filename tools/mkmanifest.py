"""Write MANIFEST.json from occustat/explain.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from occustat.explain import EXPLAIN, NA    # noqa: E402
checks = []
for pid, (tech, rule) in sorted(EXPLAIN.items()):
    checks.append({'property': pid, 'quick_cmd': 'python3 -m occustat %s --tier quick' % pid,
                   'thorough_cmd': 'python3 -m occustat %s --tier thorough' % pid, 'technique': tech, 'level': 'other',
                   'level_note': rule[0].upper() + rule[1:] + ' The source is read anew on every run and never executed. Exact arithmetic; library '
                   'calls as modelled in occustat/; obligations that cannot be decided are printed as UNDECIDED and raise no alarm.'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo. Standard library of Python 3.12 only; nothing is built.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
