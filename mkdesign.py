"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.txt (id TAB caught|missed TAB note)."""
import json, os, re
d = os.path.dirname(os.path.abspath(__file__))
res = dict(l.rstrip('\n').split('\t', 1) for l in open(d + '/seeded_results.txt') if '\t' in l)
rows = ['| Bug | Property | Needs | Check |', '|---|---|---|---|']
for i in sorted(os.listdir(d + '/seeded')):
    m = json.load(open(d + '/seeded/' + i + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, '?').replace('\t', ': ')))
t = open(d + '/DESIGN.md').read()
h, _ = t.split('## 7. Planted bugs\n')
open(d + '/DESIGN.md', 'w').write(h + '## 7. Planted bugs\n\nEach was confirmed to build, to pass the stable tests and to fail its demonstration. "Check" is what the quick tier of the property\'s check says.\n\n' + '\n'.join(rows) + '\n')
