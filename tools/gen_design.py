#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table, checks/*/check.json and tools/design_tail.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
na = json.loads(rd('tools/not_applicable.json')) if os.path.exists(os.path.join(V, 'tools/not_applicable.json')) else {}
cost = json.loads(rd('tools/cost.json')) if os.path.exists(os.path.join(V, 'tools/cost.json')) else {}
out = [rd('tools/design_head.md')]
for p in props:
    i = p['id']
    out.append(f"\n### {i} {p['title']}\n")
    f = os.path.join(V, 'checks', i, 'check.json')
    if not os.path.exists(f):
        out.append(f"Not claimed: {na.get(i, 'no check yet')}\n")
        continue
    c = json.load(open(f))
    out.append(f"* **Decided by** {c['technique']}.\n")
    out.append(f"* **Enumerated (quick):** {c['bounds']}.\n")
    out.append(f"* **Thorough:** {c['bounds_thorough']}.\n")
    out.append(f"* **Oracle / what is judged:** {c['level_note']}.\n")
    if c.get('assumptions'):
        out.append(f"* **Assumes:** {'; '.join(c['assumptions'])}.\n")
    if i in cost: out.append(f"* **Cost:** {cost[i]}.\n")
    out.append(f"* **Beyond tests:** {p['why_tests_cant']}.\n")
seeds = json.loads(rd('tools/seed_results.json')) if os.path.exists(os.path.join(V, 'tools/seed_results.json')) else {}
out.append("\n## 4. Planted bugs\n\nEach was written from the property text and the code, confirmed to compile, to pass the stable tests\nand to fail its demonstration (`tools/seedtest.sh`).\n\n| seed | property | needs | caught by | first report |\n|---|---|---|---|---|\n")
for s in sorted(os.listdir(os.path.join(V, 'seeded')) if os.path.isdir(os.path.join(V, 'seeded')) else []):
    m = json.loads(rd(f'seeded/{s}/meta.json')); r = seeds.get(s, {})
    out.append(f"| {s} | {m['property']} | {m['needs']} | {r.get('by', '-')} | {r.get('first', '-').replace('|', '/')} |\n")
if seeds.get('_missed'):
    out.append("\nChanges that were missed at first and what was strengthened:\n\n" + "".join(f"* {x}\n" for x in seeds['_missed']))
out.append(rd('tools/design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
