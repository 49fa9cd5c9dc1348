#!/usr/bin/env python3
"""Rewrites the per property section of DESIGN.md (between the markers) from properties.jsonl, the checks and the last evidence."""
import json, os, sys, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import oracles
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]


def const(pid):
    out = {}
    env = {}
    for node in ast.parse(open(os.path.join(HERE, 'bgv', 'checks', pid.lower() + '.py')).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ('RULE', 'ASSUMPTIONS', 'EXAMPLES'):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                out[node.targets[0].id] = None
    return out


lines = []
for p in props:
    c = const(p['id'])
    base = const('C02') if p['id'] == 'C03' else c
    t, note, why = oracles.ORACLE[p['id']]
    lines.append('### {} {}\n'.format(p['id'], p['title']))
    lines.append('* Method: {}; {}.'.format(t, note))
    lines.append('* Generated and compared: {}'.format(c.get('RULE') or base['RULE']))
    lines.append('* Domain and bounds: {}.'.format('; '.join(c.get('ASSUMPTIONS') or base.get('ASSUMPTIONS') or ['none beyond the general ones below'])))
    cost = '{} cases in the quick tier, {} in the thorough tier'.format(c['EXAMPLES']['quick'], c['EXAMPLES']['thorough'])
    ev = os.path.join(HERE, 'tools', 'cost.json')
    if os.path.exists(ev):
        q = json.load(open(ev)).get(p['id'])
        if q:
            cost += '; the quick tier takes about {} s on 8 cores'.format(q)
    lines.append('* Cost: {}.'.format(cost))
    lines.append('* Beyond the tests: {}; {}.'.format(p['why_tests_cant'].rstrip('.'), why))
    lines.append('')
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
a, b = '<!-- properties: written by tools/mkdesign.py -->\n', '<!-- end of properties -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(path, 'w').write(s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:])
