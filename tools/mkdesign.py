"""DESIGN.md = design/head.md + design/tail.md + the table of planted changes (tools/plant/results.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(V + '/tools/plant/results.json'))
o = open(V + '/design/head.md').read() + open(V + '/design/tail.md').read() + '| change | property | needs | caught by |\n|---|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); o += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/'), r.get(i, 'not run'))
open(V + '/DESIGN.md', 'w').write(o)
