#!/usr/bin/env python3
"""Assembles DESIGN.md from design/template.md, design/properties.txt, the evidence of the last
quick run of every check, known_findings.txt and the planted bugs' meta.json."""
import json, os, re, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl')]
prose = {}
for b in open('design/properties.txt').read().strip().split('\n\n'):
    k, _, v = b.partition('\n')
    prose[k.strip()] = v
sp = json.load(open('design/spaces.json')) if os.path.exists('design/spaces.json') else {}
for p in props:
    f = 'evidence/%s.json' % p['id']
    if os.path.exists(f):
        e = json.load(open(f))
        if e['tier'] == 'quick' and e['violations'] == 0 and e['coverage']['exhaustive']:
            c = e['coverage']
            sp[p['id']] = dict(wall=round(e['wall_s']), states=c['states'], transitions=c['transitions'], traces=c['traces_validated_against_impl'],
                               spaces=[[s['space'], s['bounds'], s['cases']] for s in c['spaces']])
json.dump(sp, open('design/spaces.json', 'w'), indent=0, sort_keys=True)
out = []
for p in props:
    i = p['id']
    out.append('### %s: %s\n' % (i, p['title']))
    for l in prose[i].split('\n'):
        k, _, v = l.partition(':')
        out.append('* *%s:*%s' % (k, v))
    s = sp.get(i)
    if s:
        out.append('* *Cost (quick):* %d s; %d states, %d transitions, %d model traces replayed on the code.' % (s['wall'], s['states'], s['transitions'], s['traces']))
        out.append('\n| space (quick tier) | bounds | cases |\n|---|---|---|')
        for n, b, c in s['spaces']:
            out.append('| %s | %s | %d |' % (n, b.replace('|', '\\|'), c))
    out.append('')
fixes = []
for l in open('known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixes.append('| %s | %s | %s |' % (m.group(2), m.group(1), m.group(3)))
det = json.load(open('design/detected.json')) if os.path.exists('design/detected.json') else {}
seeded = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    b = f.split('/')[1]
    seeded.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|'), det.get(b, '?')))
t = open('design/template.md').read()
t = t.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@SEEDED@@', '\n'.join(seeded))
open('DESIGN.md', 'w').write(t)
