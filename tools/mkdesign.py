"""Puts the table of planted changes into DESIGN.md (between the two headings)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = os.path.join(ROOT, 'tools', 'caught.json')     # id -> checks that caught it
caught = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'], m['needs'], ', '.join(caught.get(s, [])) or 'none'))
p = os.path.join(ROOT, 'DESIGN.md')
t = open(p).read()
head, rest = t.split('## Planted changes\n', 1)
tail = rest[rest.index('All were run with'):]
open(p, 'w').write(head + '## Planted changes\n\n' + '\n'.join(rows) + '\n\n' + tail)
