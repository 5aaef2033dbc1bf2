#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
V='/verif'; R=json.load(open(V+'/tools/caught.json'))
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(V,i))); r=R.get(i,{})
    c=', '.join(k for k in sorted(r) if r[k]) or 'none'
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('\n',' ').replace('|','\\|'),c))
t=open(V+'/DESIGN.md').read()
a='<!-- seedtable -->'
t=t.split(a)[0]+a+'\n'+'\n'.join(rows)+'\n'
open(V+'/DESIGN.md','w').write(t)
