#!/usr/bin/env python3
"""Development tool: writes DESIGN.md from its parts and the table of planted changes."""
import glob
import json
import os

D = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(D))


def part(name):
    with open(os.path.join(D, name), encoding='utf-8') as f:
        return f.read()


rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    with open(d) as f:
        m = json.load(f)
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs'], m['what_it_breaks']))
first = dict(ln.split(': ', 1) for ln in part('first_missed.txt').strip().split('\n'))
tab = '| property | change | needs | breaks | caught |\n|---|---|---|---|---|\n'
for p, i, n, b in sorted(rows):
    tab += '| %s | %s | %s | %s | %s |\n' % (p, i, n.replace('|', '/'), b.replace('|', '/'), 'after: ' + first[i] if i in first else 'yes')
with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write(part('head.md') + '\n' + part('props.md') + '\n' + part('tail.md').replace('@@SEEDS@@', tab))
