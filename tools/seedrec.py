#!/usr/bin/env python3
"""seedrec.py ID LOG EXIT: records in tools/seed_results.json what the check said about a planted bug."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'tools/seed_results.json')
d = json.load(open(f)) if os.path.exists(f) else {}
i, log, rc = sys.argv[1:4]
prop = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
t = open(log).read().splitlines() if os.path.exists(log) else []
first = '-'
for k, l in enumerate(t):
    if l.startswith('VIOLATION') and k + 1 < len(t): first = ' '.join(t[k+1].split()); break
d[i] = {'by': prop if rc == '1' else 'missed', 'first': re.sub(r'\S*/repo/', '', first)[:140]}
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
