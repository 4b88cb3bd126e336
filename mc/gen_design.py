#!/usr/bin/env python3
'DESIGN.md from mc/design/*.md, the registry, the properties, the evidence of the last runs, the findings and the planted bugs'
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

def read(name):
    with open(os.path.join(HERE, 'design', name)) as f:
        return f.read()

with open(os.path.join(V, 'properties.jsonl')) as f:
    props = [json.loads(l) for l in f]
texts = json.loads(read('texts.json'))
out = [read('head.md')]
for p in props:
    i = p['id']
    explored, oracle, cost = texts[i]
    if i not in registry.CHECKS:
        out.append('### %s %s\n\nNot claimed: %s\n' % (i, p['title'], registry.NOT_APPLICABLE.get(i, '')))
        continue
    b = registry.CHECKS[i]['bounds']
    out.append('### %s %s\n\n* Explored: %s\n* Oracle: %s.\n* Bounds: %s. Thorough: %s.\n* Cost (quick): %s.\n' % (
        i, p['title'], explored, oracle, b['quick'], b.get('thorough', 'the same to a greater depth'), cost))
tail = read('tail.md')
with open(os.path.join(V, 'KNOWN_FINDINGS.json')) as f:
    found = json.load(f)['findings']
tail = tail.replace('@FIXES@', '\n'.join('* %s' % e['what'].replace('fixed: property=', '') for e in found))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.loads(read('caught.json'))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    sid = os.path.basename(os.path.dirname(d))
    with open(d) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (sid, m['property'], m['needs'], caught.get(sid, 'not yet run')))
tail = tail.replace('@SEEDS@', '\n'.join(rows)).replace('@MUTANTS@', read('mutants.md').strip())
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n' + tail)
