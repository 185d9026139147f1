"""Writes the table of planted bugs at the end of DESIGN.md (run by hand, not by any check)."""
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs']))
rows.sort()
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
i = s.index('Each is in `seeded/<id>`')
j = s.index('\n\n', i) + 2
t = '| caught by | change | needs |\n|----|----|----|\n' + ''.join('| %s | %s | %s |\n' % (a, b, c.replace('|', '/')) for a, b, c in rows)
open(p, 'w').write(s[:j] + t)
print(len(rows), 'planted bugs')
