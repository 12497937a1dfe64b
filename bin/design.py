#!/usr/bin/env python3
"""Regenerates DESIGN.md from docs/, properties.jsonl, checks/info.json and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
I = json.load(open(V + '/checks/info.json'))
O = json.load(open(V + '/docs/oracles.json'))
out = [open(V + '/docs/head.md').read()]
for p in P:
    i = p['id']
    e = I.get(i)
    if not e:
        continue
    o = O.get(i, dict(oracle='', note=''))
    src = open(V + '/checks/%s.cc' % i.lower()).read()
    sc = re.findall(r'^SCENARIO(_THOROUGH)?\((\w+)\)', src, re.M)
    s = '### %s %s\n\n' % (i, p['title'])
    s += '*Decided by:* ' + e['technique'].rstrip('.') + '.  \n'
    if o['oracle']:
        s += '*Oracle:* ' + o['oracle'] + '  \n'
    s += '*Enumerated (scenarios: ' + ', '.join(n + (' [thorough]' if t else '') for t, n in sc) + '):* ' + e['bounds'].rstrip('.') + '.  \n'
    s += '*Why tests cannot settle it:* ' + p['why_tests_cant'] + '  \n'
    if e['assumptions']:
        s += '*Assumptions:* ' + '; '.join(e['assumptions']) + '.  \n'
    if o['note']:
        s += '*Note:* ' + o['note'] + '\n'
    out.append(s)
t = open(V + '/docs/tail.md').read()
rows = ['| planted change | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d.get('caught_by', d['property'])))
t = t.replace('@SEEDED@', '\n'.join(rows))
n = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
t = t.replace('@NFIXED@', str(n))
out.append(t)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
