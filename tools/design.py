#!/usr/bin/env python3
"""Writes DESIGN.md from props.py, the rules in the evidence files and the seeds (development aid; the output is committed)."""
import json,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
sys.path.insert(0,V+'/mutants')
from props import PROPS,NA
def tot(k):
    n=0
    for f in glob.glob(V+'/mutants/%s_*.py'%k):
        ns={};exec(open(f).read(),ns);n+=len(ns['EDITS'])
    return n
out=open(V+'/tools/design_head.md').read().replace('@M@',str(tot('m'))).replace('@R@',str(tot('r')))
seeds={}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d));seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(d)),m))
extra={}
try: exec(open(V+'/tools/design_notes.py').read(),extra)
except FileNotFoundError: pass
notes=extra.get('NOTES',{})
for p in PROPS:
    e=json.load(open(f"{V}/evidence/{p['id']}.json"))
    out+=f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Method*: {p['tech']}. *Out of reach of tests*: {p['why']}.\n*Anchors*: "+'; '.join(f'{a} ({b})' for a,b in p['mech'])+'.\n\nRules (each applied on every path of every function in question):\n\n'
    for r,t in sorted(e['coverage']['rules'].items()):
        out+=f"* `{r}` - {t}.\n"
    if e.get('assumptions'): out+='\nAssumes: '+'; '.join(e['assumptions'])+'.\n'
    if p['id'] in notes: out+='\n'+notes[p['id']]+'\n'
    for s,m in seeds.get(p['id'],[]):
        out+=f"\nPlanted: `{s}` (needs {m['needs']}): caught.\n"
    out+='\n'
tail=open(V+'/tools/design_tail.md').read()
na=''.join(f"* **{p['id']} {p['title']}** - {p['reason']}.\n" for p in NA)
out+=tail.replace('@NA@',na.rstrip())
open(V+'/DESIGN.md','w').write(out)
