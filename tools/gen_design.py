#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted bugs"""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(root+'/tools/design_head.md').read()
t+="| planted bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n"
note={}
p=root+'/tools/caught.json'
if os.path.exists(p): note=json.load(open(p))
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    t+=f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {note.get(d,m['property']+' quick')} |\n"
open(root+'/DESIGN.md','w').write(t)
