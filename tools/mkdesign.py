#!/usr/bin/env python3
"""Refreshes the generated table of DESIGN.md from the explorer, properties.jsonl and the last evidence."""
import json, subprocess, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc=V+'/target/mc/debug/mc'
out=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    info=json.loads(subprocess.check_output([mc,'info',i],text=True))
    ev=''
    try:
        e=json.load(open(f'{V}/evidence/{i}.json'))
        c=e['coverage']; ev=f"Last {e['tier']} run: {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} validated, {round(e['wall_s'])} s."
    except Exception: pass
    progs=subprocess.check_output([mc,'progs',i],text=True).strip()
    out.append(f"### {i} {p['title']}\n\n* explored: {info['what']}; executed: {('programs '+progs) if progs else 'the library'}\n* bounds (quick, thorough in parentheses): {info['bounds']}\n* oracle: {info['oracle']}\n* {ev}\n")
s=open(V+'/DESIGN.md').read()
a,b='<!-- generated by tools/mkdesign.py -->\n','<!-- end -->\n'
i,j=s.index(a)+len(a),s.index(b)
open(V+'/DESIGN.md','w').write(s[:i]+'\n'+'\n'.join(out)+'\n'+s[j:])
