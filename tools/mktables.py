#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (undone fixes, planted bugs) between their markers, from tools/undone.json, known_findings.jsonl and seeded/."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
undone = json.load(open(os.path.join(HERE, 'tools', 'undone.json')))
lines = ['| commit | property | undone, reported by | what failed |', '|---|---|---|---|']
for l in open(os.path.join(HERE, 'known_findings.jsonl')):
    k = json.loads(l)
    if k['status'] == 'fixed':
        lines.append('| {} | {} | {} | {} |'.format(k['commit'], k['property'], undone.get(k['commit'], k['property']), k['what']))
bugs = ['| id | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    k = json.load(open(m))
    bugs.append('| {} | {} | {} | {} |'.format(os.path.basename(os.path.dirname(m)), k['property'], ' '.join(k['needs'].split()), k.get('caught_by', k['property'])))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
for name, rows in (('undone', lines), ('planted', bugs)):
    s = re.sub('(<!-- {0} -->\n).*?(<!-- end of {0} -->)'.format(name), lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
