"""Writes the table of planted changes into DESIGN.md."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property and check that reports it | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
t = '\n'.join(rows)
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'\| change \| property.*?\n\n', lambda m: t + '\n\n', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
