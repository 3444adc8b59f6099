#!/usr/bin/env python3
"""design.py: writes ../DESIGN.md from head, properties, evidence, seeds and tail"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, root)
from props import PROPS, NA
o = open(os.path.join(here, 'head.md')).read() + '\n## The properties\n\n'
seeds = {}
sd = os.path.join(root, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((d, m))
for p in PROPS:
    ev = {}
    f = os.path.join(root, 'evidence', p['id'] + '.json')
    if os.path.exists(f): ev = json.load(open(f))
    cov = ev.get('coverage', {})
    o += '### %s %s\n\n' % (p['id'], p['title'])
    o += '*Method*: %s. %s\n\n' % (p['technique'], cov.get('explanation', ''))
    o += '*Strength*: %s.\n\n' % p['note']
    o += '*Why the tests cannot*: %s\n\n' % p['why_tests_cant']
    if cov.get('rules'):
        o += '*Rules* (with the least number of constructs each has to be applied to):\n\n'
        for k, r in sorted(cov['rules'].items()):
            if k in ('undecided', 'anchor', 'internal', 'floor'): continue
            o += '- `%s` (%s): %s\n' % (k, r['floor'], r['rule'])
        o += '\n'
    if ev.get('assumptions'):
        o += '*Assumed*: ' + '; '.join(sorted(set(ev['assumptions']))) + '.\n\n'
    for d, m in seeds.get(p['id'], []):
        o += '*Planted*: `%s`, caught: %s. Needs %s.\n\n' % (d, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'))
if NA:
    o += '## Not applicable\n\n'
    for p in NA: o += '* **%s %s**: %s\n' % (p['id'], p['title'], p['reason'])
    o += '\n'
o += open(os.path.join(here, 'tail.md')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(o)
