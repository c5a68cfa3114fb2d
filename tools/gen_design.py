#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the check table, the findings and the seeded bugs."""
import json, os, re, sys, glob
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, B)
import checks
props = [json.loads(l) for l in open(B + '/properties.jsonl')]
head = open(B + '/tools/design_head.md').read()
notes = {}
cur = None
for l in open(B + '/tools/design_notes.md'):
    m = re.match(r'^# (C\d\d)\s*$', l)
    if m: cur = m.group(1); notes[cur] = ''
    elif cur: notes[cur] += l
out = [head.rstrip(), '', '## Per property', '',
  'Each section: what runs (build variants with quick / thorough case counts), one evaluation, the deciding oracle, the bounds,',
  'and why the repository\'s tests cannot settle it.  "Must see" counters are part of the verdict: a run in which one of them',
  'stays at zero is reported as a broken check (exit 2), never as a pass.', '']
for p in props:
    k = checks.CHECKS[p['id']]
    out.append('### %s %s' % (p['id'], p['title'])); out.append('')
    vs = ', '.join('`%s` (%s%s; %d / %d)' % (x['src'], x['mode'], (' ' + ' '.join(x['flags'])) if x.get('flags') else '', x['cases'][0], x['cases'][1]) for x in k['variants'])
    if k.get('configs'): vs += '; %d build configurations of `c50w.c`/`c50i.c`' % len(k['configs'])
    out.append('* Runs: ' + vs)
    out.append('* Workload: ' + p['quantifier']['text'] + '. One evaluation: ' + k['rule'] + '.')
    out.append('* Oracle: ' + k['technique'] + '.')
    out.append('* Bounds: ' + k['note'] + '.')
    if k.get('must_see'): out.append('* Must see: ' + ', '.join(k['must_see']) + '.')
    out.append('* Beyond the tests: ' + p['why_tests_cant'] + '.')
    n = notes.get(p['id'], '').strip()
    if n: out.append('* Notes: ' + re.sub(r'\s*\n\s*', ' ', n))
    out.append('')
fixed, known = {}, []
for l in open(B + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
    if m: known.append(m.groups())
out += ['## Defects found', '',
  '`known_findings.txt` lists every genuine defect the monitors showed in the original code.  %d were repaired by one small `fix:` commit each in /repo (the property that showed it is named; several were shown by more than one).' % len(set(c for v in fixed.values() for c, _ in v)), '']
for p in sorted(fixed):
    out.append('* %s: ' % p + '; '.join('%s (%s)' % (t, c) for c, t in fixed[p]) + '.')
out += ['', 'Recorded and not repaired:', '']
for p, k, t in known: out.append('* %s `%s`: %s' % (p, k, t))
out += ['', '## Planted bugs', '',
  'Each lies in `seeded/<id>/` with a demonstration.  All were run against the whole set of their property\'s check; the column says what caught it.', '',
  '| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(B + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'] + ' quick')))
out += ['', open(B + '/tools/design_tail.md').read().rstrip(), '']
open(B + '/DESIGN.md', 'w').write('\n'.join(out))
