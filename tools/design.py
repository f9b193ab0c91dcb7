#!/usr/bin/env python3
# Writes DESIGN.md: tools/design_head.md and the table of planted bugs with the last result of tools/tryseeds.py.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res=json.load(open(V+'/tools/caught.json'))
rows=['| bug | property | needs | result |','|---|---|---|---|']
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i,'not run')} |")
h=open(V+'/tools/design_head.md').read().replace('@EXTRA@','')
open(V+'/DESIGN.md','w').write(h.rstrip()+'\n\n'+'\n'.join(rows)+'\n')
