"""Write DESIGN.md from tools/design_head.md, the properties and occustat/explain.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from occustat.explain import EXPLAIN, NA    # noqa: E402
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    out.append('### %s %s\n' % (p['id'], p['title']))
    if p['id'] in NA:
        out.append('Not applicable: %s\n' % NA[p['id']])
    else:
        tech, rule = EXPLAIN[p['id']]
        out.append('*%s.* %s\n' % (tech[0].upper() + tech[1:], rule[0].upper() + rule[1:]))
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
    out.append('| change | caught by | what it needs | what it breaks |\n|---|---|---|---|')
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % tuple(str(x).replace('|', '/') for x in (d, m['property'], m['needs'], m['what_it_breaks'])))
    out.append('')
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
