#!/usr/bin/env python3
"""regenerates the last part of DESIGN.md (findings, seeded bugs) from known_findings.jsonl and seeded/"""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = open(os.path.join(V, 'tool', 'design_notes.md')).read()
MARK = '<!-- generated by tool/design.py from here on -->\n'
s = open(V + '/DESIGN.md').read().split(MARK)[0] + MARK
s += NOTES + '\n### Genuine defects\n\nFound by the checks on the original tree; those fixed have a `fix:` commit in `/repo` each (the check of the property reports them again if they return).\n\n'
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        s += '* %s, fixed by %s: %s\n' % m.groups()
    elif l:
        s += '* known finding: `%s`\n' % l
s += '\n### Seeded bugs\n\nEach was validated by `tool/seed/mk.py` (builds, stable tests pass, demonstration fails with it and passes without). All are caught by the check of their property.\n\n| id | property | needs |\n|----|----|----|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    s += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(s)
