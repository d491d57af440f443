#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the explorer implements, and progs.txt."""
import json, subprocess, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc=V+'/target/mc/debug/mc'
ids=subprocess.check_output([mc,'list'],text=True).split()
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
with open(V+'/progs.txt','w') as f:
    for i in ids:
        f.write(f"{i}: {subprocess.check_output([mc,'progs',i],text=True).strip()}".rstrip()+"\n")
checks=[]
for i in ids:
    info=json.loads(subprocess.check_output([mc,'info',i],text=True))
    fault=info['fault']
    checks.append(dict(property=i,
        quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique=("stateless model checking of the real programs: exhaustive enumeration of environment answers (faults) at every read/write/open choice point" if fault
                   else "stateless model checking of the real code: exhaustive bounded enumeration of "+info['what']+", every execution judged against a reference model"),
        level="fault_enumeration" if fault else "model_checking",
        level_note="Every element of the stated bounded space is executed on the code built from /repo and judged; nothing is said outside of it. Bounds (quick, thorough in parentheses): "+info['bounds']+". Oracle: "+info['oracle']+". Trusted: the reference models of mc/src/model.rs (self-checked against naive ones), the fork-server shim, compiler and kernel."))
na=[dict(property=k,reason="not built yet") for k in props if k not in ids]
m=dict(version=1,setup_cmd="./check.sh --build",checks=checks,not_applicable=na,
  notes="No hooks: the checks use the public library interface and unmodified program binaries under an LD_PRELOAD fork-server shim (randomstring is additionally compiled from its unmodified source against a choice-driven rand). Known findings and repairs: known_findings.txt.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
