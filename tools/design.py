#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: bounds per property and planted bugs."""
import json, os
P=[json.loads(l) for l in open('properties.jsonl')]
C=json.load(open('checks.json'))
M={c['property']:c for c in json.load(open('MANIFEST.json'))['checks']}
try: caught=json.load(open('tools/caught.json'))
except FileNotFoundError: caught={}
out=['<!-- generated -->','','## Per property: harnesses and bounds','',
 'Every harness is symbolic execution with all branches and assertions decided by the solver; "thorough" runs the same harnesses with the larger parameters given in checks.json.','']
for p in P:
    c=C[p['id']]
    out.append('**%s %s.**'%(p['id'],p['title']))
    for h in c['harnesses']:
        out.append('- `%s.%s`: %s.'%(c['pkg'],h['fn'],h['bounds'])+(' Thorough: %s.'%', '.join('%s=%s'%x for x in h['thorough'].items()) if h.get('thorough') else ''))
    if c['outside']: out.append('- outside: '+'; '.join(c['outside'])+'.')
    if c['assume']: out.append('- assumes: '+'; '.join(c['assume'])+'.')
    out.append('')
out+=['## Planted bugs','','Each was written from the property and the code, kept whether or not a check caught it, and then checked with the quick check of its property.','',
 '| bug | property | what it needs | caught |','|---|---|---|---|']
for i in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%i))
    out.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),caught.get(i,'?')))
s=open('DESIGN.md').read().split('<!-- generated -->')[0]
open('DESIGN.md','w').write(s+'\n'.join(out)+'\n')
