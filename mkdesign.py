#!/usr/bin/env python3
"""Regenerates DESIGN.md from properties.jsonl, texts.py, known_findings.json, seeded/ and design_head.md / design_tail.md."""
import json, os, glob
from texts import TEXTS
from specs import SPECS
P = [json.loads(l) for l in open('properties.jsonl')]
K = json.load(open('known_findings.json'))
out = [open('design_head.md').read().rstrip(), '', '## Per property', '']
for p in P:
    i = p['id']; q, t, o = TEXTS[i]
    out += ['### %s — %s' % (i, p['title']), '', p['statement'], '']
    s = SPECS[i]
    m = []
    for n, build, src in s.get('harness', []): m.append('`harness/%s.cpp` (%s build%s)' % (n, {'san': 'ASan+UBSan', 'plain': 'plain'}[build], ', with the program\'s own sources' if src else ''))
    for n in s.get('e2e', []): m.append('`e2e/%s.py` (runs of the real program)' % n)
    out += ['*Machinery:* ' + ', '.join(m) + '.  ', '*Oracle:* ' + o + '  ', '*Quick bounds:* ' + q + '  ', '*Thorough:* ' + t + '  ', '*Why tests cannot:* ' + p['why_tests_cant'].rstrip('.') + '.']
    f = [k['entry'].split(' ', 3)[2:] for k in K if k['property'] == i and k['status'] == 'fixed']
    if f: out += ['', '*Defects found and repaired:* ' + '; '.join('%s (%s)' % (b, a) for a, b in f) + '.']
    k = [x['what'] for x in K if x['property'] == i and x['status'] == 'known']
    if k: out += ['', '*Known findings:* ' + '; '.join(k) + '.']
    out.append('')
out += ['## Planted bugs', '', '| bug | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[1]
    out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', 'check ' + m['property'])))
out += ['', open('design_tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(out))
