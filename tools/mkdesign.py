#!/usr/bin/env python3
"""Appends per-property sections to DESIGN.md between the markers, from properties.jsonl and props.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
out = ['<!-- generated by tools/mkdesign.py -->', '## Properties: what is decided, within which bounds', '']
for l in open(V + '/properties.jsonl'):
    x = json.loads(l); i = x['id']; out.append(f"### {i} {x['title']}"); 
    if i not in PROPS: out += ['Not applicable: see MANIFEST.json.', '']; continue
    for h, c in PROPS[i]['harnesses']: out.append(f"* `{h}`: {c['bounds']}" + (' (thorough tier)' if c.get('tier') == 'thorough' else '') + (f", {c['preempt']} preemptions" if 'preempt' in c else ''))
    out += ['', PROPS[i]['outside'], '']
out.append('<!-- end -->')
s = open(V + '/DESIGN.md').read()
blk = '\n'.join(out)
s = s.replace('@@TABLE@@', blk) if '@@TABLE@@' in s else re.sub(r'<!-- generated by.*?<!-- end -->', lambda m: blk, s, flags=re.S)
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json')); rows.append((m['property'], d, m['needs']))
tab = '<!-- bugs -->\n| property | planted bug | needs |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % r for r in sorted(rows)) + '\n<!-- end bugs -->'
s = s.replace('@@BUGS@@', tab) if '@@BUGS@@' in s else re.sub(r'<!-- bugs -->.*?<!-- end bugs -->', lambda m: tab, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
