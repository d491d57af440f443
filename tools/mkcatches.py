#!/usr/bin/env python3
"""mkcatches.py RESULTS: writes CATCHES.md from lines 'seed property exit=1 1 12s ...' of a run of every planted bug."""
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r={}
for l in open(sys.argv[1]):
    f=l.split()
    if len(f)>4: r[f[0]]=f
o=['# Planted bugs and the checks that report them','','Quick tier; the time includes building the changed tree.','','| planted bug | property | needs | what it breaks | reported |','|---|---|---|---|---|']
n=0
for d in sorted(os.listdir(V+'/seeded'),key=lambda d:(json.load(open(f'{V}/seeded/{d}/meta.json'))['property'],d)):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    f=r.get(d)
    c='not run' if not f else (f'{f[1]}, {f[4]}' if f[2]=='exit=1' and f[3]!='0' else 'MISSED')
    n+=c not in ('not run','MISSED')
    e=lambda x:str(x).replace('|','\\|').replace('\n',' ')
    o.append(f"| {d} | {m['property']} | {e(m['needs'])} | {e(m['what_it_breaks'])} | {c} |")
o+=['',f'{n} of {len(o)-6} reported.']
open(V+'/CATCHES.md','w').write('\n'.join(o)+'\n')
print(o[-1])
