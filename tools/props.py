#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level_note=level_note))
NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, 'tools', 'table.py')).read())

have = set()
for d, _, fs in os.walk(os.path.join(V, 'harness')):
    for f in fs:
        if f.endswith('.go'):
            have |= set(re.findall(r'^//verif:harness (\w+)', open(os.path.join(d, f)).read(), re.M))
nas = {n['property'] for n in NA}
P = [p for p in P if p['id'] in have or p['id'] in nas]
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
NOTE = ("The solver decides every value within the bounds written on each harness; a reported violation is replayed against the natively compiled code first. "
        "Trusted: the go/ssa front end, the executor's model of Go and of the intrinsics listed in DESIGN.md, z3. Cryptographic hashes of symbolic data are treated as injective functions. ")
checks = [dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
    technique='solver-based symbolic execution of the Go SSA of /repo (z3), counterexamples replayed natively',
    level='model_checking', level_note=NOTE + (p['level_note'] or '')) for p in P if p['id'] not in nas]
json.dump(dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=NA,
    notes='No hooks in /repo: harness functions are laid over the packages with a build overlay.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable; harness without property:', sorted(have - {p['id'] for p in P}))
# DESIGN.md
H = {}
for d, _, fs in sorted(os.walk(os.path.join(V, 'harness'))):
    for f in sorted(fs):
        if not f.endswith('.go'): continue
        doc = []
        for l in open(os.path.join(d, f)).read().split('\n'):
            if l.startswith('//'): doc.append(l); continue
            m = re.match(r'func (VerifH_\w+)\(', l)
            if m:
                hs = [x for x in doc if x.startswith('//verif:harness')]
                if hs:
                    H.setdefault(hs[0].split()[1], []).append((m.group(1), os.path.relpath(os.path.join(d, f), V), hs[0],
                        ' '.join(x[2:].strip() for x in doc if not x.startswith('//verif:')), ' '.join(x[15:] for x in doc if x.startswith('//verif:bounds'))))
            doc = []
o = open(os.path.join(V, 'tools', 'design_head.md')).read()
o += '## 2. Properties and how each is decided\n\n'
for p in P:
    o += '### %s %s\n\n%s\n\n*Quantified over:* %s. *Why tests cannot settle it:* %s.\n\n' % (p['id'], p['title'], p['statement'], p['qtext'], p['why'])
    if p['id'] in nas:
        o += '**Not applicable**: %s\n\n' % [n['reason'] for n in NA if n['property'] == p['id']][0]
    for n, f, h, doc, b in H.get(p['id'], []):
        o += '* `%s` (`%s`%s): %s **Bounds:** %s\n' % (n, f, ', thorough only' if 'tier=thorough' in h else '', doc, b)
    o += '\n'
o += '## 3. Planted changes and which check catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
try: C = json.load(open(os.path.join(V, 'tools', 'caught.json')))
except Exception: C = {}
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    o += '| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'], C.get(s, '?'))
o += '\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
