#!/usr/bin/env python3
"""seed_table.py [RESULTS.jsonl…]   fold results of seed.py into tools/seed_results.json, write the table into DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = V + '/tools/seed_results.json'
res = json.load(open(F)) if os.path.exists(F) else {}
for f in sys.argv[1:]:
    for line in open(f):
        r = json.loads(line)
        why = ''
        for l in r.get('why', []):
            if l.startswith('VIOLATION'):
                why = os.path.basename(l.split('replay=')[1]).split('.')[0].split('-', 1)[1]
        res[r['id']] = {'valid': r.get('clean') == 0 and not r.get('failed') and r.get('demo', 0) != 0,
                        'caught': bool(r.get('caught')), 'check': why}
ids = sorted(d for d in os.listdir(V + '/seeded') if os.path.exists(V + '/seeded/%s/meta.json' % d))
res = {k: v for k, v in res.items() if k in ids}
json.dump(res, open(F, 'w'), indent=1, sort_keys=True)
t = ['| bug | needs | caught by |', '|---|---|---|']
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    r = res.get(i)
    t.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), 'not tried' if not r else
                                   '`%s`' % r['check'] if r['caught'] else 'missed'))
d = open(V + '/DESIGN.md').read()
mark = '<!-- seed table -->'
d = d.split(mark)[0].rstrip() + '\n\n' + mark + '\n' + '\n'.join(t) + '\n'
open(V + '/DESIGN.md', 'w').write(d)
print(len(ids), 'bugs,', sum(r['caught'] for r in res.values()), 'caught, missed:', [i for i in ids if i in res and not res[i]['caught']],
      'untried:', [i for i in ids if i not in res])
