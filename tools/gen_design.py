#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and the planted bugs (the table of which check catches which)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
s = open(ROOT + '/tools/design.md').read()
s = s.replace('@SEEDS@', '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows)).replace('@N@', str(len(rows)))
open(ROOT + '/DESIGN.md', 'w').write(s)
