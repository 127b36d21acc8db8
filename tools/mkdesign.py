#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, known-findings.json, the list below and, when present, seeded/*/meta.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED=json.load(open(V+'/tools/planted.json'))
kf=json.load(open(V+'/known-findings.json'))
fx=[]
for e in kf:
    fx.append('* '+e['what'])
rows=['| change | needs | caught by | first |','|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    st=MISSED['missed_first'].get(d)
    c=MISSED['not_caught'].get(d)
    rows.append('| %s | %s | %s | %s |'%(d,m['needs'].replace('|','/'), 'nothing: '+c if c else m['property'], 'no: '+st if st else ('no' if c else 'yes')))
t=open(V+'/tools/design.md.in').read()
t=t.replace('@FIXED@','\n'.join(fx)).replace('@SEEDED@','\n'.join(rows)).replace('@REFACT@','\n'.join('* '+x for x in MISSED['quiet']))
open(V+'/DESIGN.md','w').write(t)
