#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | caught by | needs | breaks |','|---|---|---|---|']
missed={}
f=R+'/seeded/MISSED.json'
if os.path.exists(f): missed=json.load(open(f))
for d in sorted(os.listdir(R+'/seeded')):
    p=f'{R}/seeded/{d}/meta.json'
    if not os.path.exists(p): continue
    m=json.load(open(p))
    by=m['property'] if d not in missed else missed[d]
    rows.append(f"| {d} | {by} | {m['needs']} | {m['what_it_breaks']} |".replace('\n',' '))
s=open(R+'/DESIGN.md').read()
i=s.index('<!-- TABLE -->')
open(R+'/DESIGN.md','w').write(s[:i]+'<!-- TABLE -->\n\n'+'\n'.join(rows)+'\n')
