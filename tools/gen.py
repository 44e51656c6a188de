#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid; the outputs are committed)."""
import json,os,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
from props import PROPS, NA
built=set(sys.argv[1:]) or {p['id'] for p in PROPS}
with open(f'{V}/properties.jsonl','w') as f:
    for p in PROPS+NA:
        q={k:p[k] for k in('id','title','statement')}
        assert len(p['title'])<=80,p['id']
        q['quantifier']={'over':p['over'],'text':p['q']}
        q['why_tests_cant']=p['why']
        q['anchors']={'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']]}
        f.write(json.dumps(q)+'\n')
checks=[];na=[]
for p in PROPS:
    if p['id'] not in built:
        na.append({'property':p['id'],'reason':'rules not built yet'}); continue
    checks.append({'property':p['id'],'quick_cmd':f'bash check.sh {p["id"]} quick','thorough_cmd':f'bash check.sh {p["id"]} thorough','technique':'static analysis: '+p['tech'],'level':'other','level_note':p['note']})
for p in NA: na.append({'property':p['id'],'reason':p['reason']})
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na,
 'notes':'All checks are static: analyzer/ loads and type-checks /repo, builds SSA and applies rules; nothing in /repo is executed.'},open(f'{V}/MANIFEST.json','w'),indent=1)
