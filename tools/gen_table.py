"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | property | needs | caught by the quick check of |', '|---|---|---|---|']
also = {'c06-ssm-retry-counter': 'C06', 'c03-short-statements': 'C03'}
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
if '@@TABLE@@' in s:
    s = s.replace('@@TABLE@@', '<!-- table -->\n<!-- /table -->')
a, b = s.index('<!-- table -->'), s.index('<!-- /table -->')
open(p, 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
