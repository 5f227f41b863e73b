"""Rebuild the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (the last column: the check of its property)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'DESIGN.md')
lines = open(path, encoding='utf-8').read().split('\n')
first = next(i for i, l in enumerate(lines) if l.startswith('## Planted bugs'))
head = next(i for i in range(first, len(lines)) if lines[i].startswith('|--') or lines[i].startswith('| --') or lines[i].startswith('|:--'))
old = {l.split('|')[2].strip(): l for l in lines[head + 1:] if l.startswith('|')}
rows = []
for name in os.listdir(os.path.join(HERE, 'seeded')):
    meta = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json'), encoding='utf-8'))
    rows.append((meta['property'], name, old.get(name) or '| %s | %s | %s | %s |' % (meta['property'], name, meta['needs'].replace('|', '/'), meta['property'])))
end = head + 1
while end < len(lines) and lines[end].startswith('|'):
    end += 1
lines[head + 1:end] = [r[2] for r in sorted(rows)]
open(path, 'w', encoding='utf-8').write('\n'.join(lines))
