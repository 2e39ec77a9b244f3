#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (development tool). The sub-checks that detect
new bugs are given as ID=SUB arguments."""
import glob, json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = VERIF + '/DESIGN.md'
s = open(path).read()
head = '| bug | detected by | needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
m = re.match(r'(\|.*\n)*', s[i:])
subs = dict(re.findall(r'^\| `?([\w]+)`? \| (.*?) \|', m.group(0), re.M))
subs.update(a.split('=', 1) for a in sys.argv[1:])
rows = []
for f in sorted(glob.glob(VERIF + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append('| %s | %s | %s |\n' % (b, subs.get(b, '?'), d['needs'].replace('|', '/')))
open(path, 'w').write(s[:i] + ''.join(rows) + s[i + m.end():])
print(len(rows), [r.split(' ')[1] for r in rows if '| ? |' in r])
