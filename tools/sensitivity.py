#!/usr/bin/env python3
"""Write the table of planted bugs at the end of DESIGN.md."""
import glob, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]),
        ' '.join(m['needs'].split()), ' '.join(m['what_it_breaks'].split())))
path = root + '/DESIGN.md'
mark = '<!-- planted bugs -->\n'
text = open(path).read().split(mark)[0]
open(path, 'w').write(text + mark + '\n'.join(rows) + '\n')
