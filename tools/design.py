#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: tools/design.py, after tools/props.py and when bugs were planted."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(here + '/tools/notes.py').read())
src = open(here + '/tools/DESIGN.in.md').read()
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
p = '\n'.join('* **%s %s.** %s' % (x['id'], x['title'], NOTE[x['id']]) for x in props)
b = ['| change | needs | caught by |', '|---|---|---|']
caught = json.load(open(here + '/tools/caught.json'))
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    b.append('| %s | %s | %s |' % (d, m['needs'], caught.get(d, m['property'])))
open(here + '/DESIGN.md', 'w').write(src.replace('@@PROPS@@', p).replace('@@BUGS@@', '\n'.join(b)))
