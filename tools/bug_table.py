#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and tools/caught.json ({bug: [checks that report it]})."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f'{root}/tools/caught.json'))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(d, [])) or 'none'} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
head = s.split('## Planted bugs')[0]
s = head + '## Planted bugs\n\nEach was written from a property and the code alone, passes the 21 tests and has its own\ndemonstration (`seeded/<id>/`). "Caught by" lists the quick checks seen to report it (not\nevery check was run on every bug).\n\n| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
