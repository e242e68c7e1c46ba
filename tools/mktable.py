#!/usr/bin/env python3
"""Prints the table of DESIGN.md from mkmeta.py and the evidence of the last quick runs."""
import json
import os
import re
import mkmeta
out = []
for p, note in mkmeta.PROPS:
    f = os.path.join(mkmeta.VERIF, 'evidence', p['id'] + '.json')
    e = json.load(open(f)) if os.path.exists(f) else None
    hs = sorted({h['harness'] for h in e['coverage']['harnesses']}) if e else []
    out.append('| %s | %s: %s | %s | %s |' % (p['id'], p['title'], ', '.join(hs) or '-', note, '%.0f s' % e['wall_s'] if e else '-'))
path = os.path.join(mkmeta.VERIF, 'DESIGN.md')
s = open(path).read()
head = '|----|------------|--------------------------------------|-----------|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open(path, 'w').write(s[:i] + '\n'.join(out) + s[j:])
