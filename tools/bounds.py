#!/usr/bin/env python3
"""Rewrites the lists at the end of DESIGN.md: planted bugs (from seeded/*/meta.json)
and bounds (from the comments of the harnesses)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/bounds.py from here on -->\n'
d = open(V + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + MARK
d += '\n## Planted bugs\n\nEach is caught by the quick check of its property (last batch run over all of them; "first missed" marks those that led to a stronger check).\n\n'
missed = set(open(V + '/tools/first_missed.txt').read().split())
d += '| bug | property | needs |\n|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    d += '| %s%s | %s | %s |\n' % (n, ' (first missed)' if n in missed else '', j['property'], esc(j['needs']))
d += '\n## Bounds of each harness\n\n'
hs = []
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    s = open(f).read()
    for c, name in re.findall(r'((?:^//.*\n)+)^func (VH_C\d\d\w*)\(', s, re.M):
        doc, dirs = [], ''
        for ln in c.splitlines():
            ln = ln[2:].strip()
            if ln.startswith('vh:'): dirs = ln[3:].strip()
            elif ln: doc.append(ln)
        t = ' '.join(doc)
        if t.startswith(name + ':'): t = t[len(name) + 1:].strip()
        hs.append((name, t, dirs, os.path.relpath(f, V)))
cur = ''
for name, t, dirs, f in sorted(hs):
    p = name[3:6]
    if p != cur:
        cur = p
        d += '\n### %s\n\n' % p
    d += '- `%s` (%s%s): %s\n' % (name, f, '; ' + dirs if dirs else '', t)
open(V + '/DESIGN.md', 'w').write(d)
