#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (statement, analysis, assumptions, planted bugs), tools/design_tail.md."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proplist import P, NA
import props

seeds = {}
for m in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['what_it_breaks']))
fixed = {}
for ln in open(os.path.join(HERE, 'known_findings.txt')):
    if ln.startswith('fixed: property='):
        c, _, rest = ln[len('fixed: property='):].strip().partition(' ')
        fixed.setdefault(c, []).append(rest)
old = {}
path = os.path.join(HERE, 'DESIGN.md')
out = [open(os.path.join(HERE, 'tools/design_head.md')).read().rstrip(), '', '## The properties and how each is decided', '']
for p in P:
    if p['id'] not in props.TABLE:
        continue
    e = json.load(open(os.path.join(HERE, 'evidence/%s.json' % p['id'])))
    c = e['coverage']
    mod = props.TABLE[p['id']]
    out += ['### %s: %s' % (p['id'], p['title']), '',
            'Decided by: %s' % c['explanation'], '',
            'Ranges over: %s. %s' % (p['forall'], 'Why tests cannot: ' + p['why']), '']
    if e.get('assumptions'):
        out += ['Assumes: ' + ' '.join(a[0].upper() + a[1:].rstrip('.') + '.' for a in e['assumptions']), '']
    out += ['Obligations on the current tree: %d, of these rules: %s. Anchored in %s.' % (c['obligations'], ', '.join(c['rules']) if len(c['rules']) <= 30 else '%d rules (see evidence)' % len(c['rules']),
            ', '.join('`%s`' % f for f in p['files'])), '']
    if p['id'] in fixed:
        out += ['Genuine defects found and repaired:'] + ['- ' + x for x in fixed[p['id']]] + ['']
    if p['id'] in seeds:
        out += ['Planted bugs, all reported by this check:'] + ['- `%s`: %s' % s for s in seeds[p['id']]] + ['']
out += ['## Properties this family cannot decide', '']
for p in P:
    if p['id'] in NA:
        out += ['- **%s: %s.** %s' % (p['id'], p['title'], NA[p['id']])]
out += ['', open(os.path.join(HERE, 'tools/design_tail.md')).read().rstrip(), '']
open(path, 'w').write('\n'.join(out))
print(len(out), 'lines')
