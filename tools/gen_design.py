#!/usr/bin/env python3
"""Writes DESIGN.md: the text of design_body.md and the table of planted bugs."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
body = open(os.path.join(here, 'design_body.md')).read()
rows = []
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs']))
out = body.rstrip() + '\n\n| planted change | caught by | what it breaks | needs |\n|---|---|---|---|\n'
for p, i, w, n in sorted(rows, key=lambda r: (r[0], r[1])):
    out += '| %s | %s | %s | %s |\n' % (i, p, w.replace('|', '/'), n.replace('|', '/'))
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
