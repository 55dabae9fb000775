import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, PENDING
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': [], 'not_applicable': [], 'notes': 'All checks are deterministic simulation of the real library code with seeded search (see DESIGN.md). ./check --replay PROPERTY FILE replays a violation.'}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'technique': p['technique'], 'level': p['level'],
            'level_note': p.get('note', 'Held on every simulated run explored; seeded search, not exhaustive.') + ' Assumes: ' + '; '.join(p['assumes']) + '.'})
    else: m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, PENDING)})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
