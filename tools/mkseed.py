#!/usr/bin/env python3
"""Development aid: turn the entries of tools/seeds_*.py into seeded/<id>/ after confirming, in a scratch
copy of /repo, that the change builds, keeps the stable tests passing and that the demo tells it apart."""
import sys,os,json,subprocess,shutil,glob,difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC='/tmp/w/sc'
DEMO='''#!/bin/bash
# cwd: the repository. Runs demo_test.go inside package %(pkg)s through an overlay.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$R/go.work"
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(pkg)s/zz_verif_demo_test.go" "$D/demo_test.go" > "$T/o.json"
cd "$R/%(pkg)s" && go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s %(flags)s -run '^TestVerifDemo$' .
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='',GOWORK=SC+'/go.work')
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
stable=set(stable)
def fresh():
    if os.path.exists(SC): shutil.rmtree(SC)
    sh(f'cp -a /repo {SC} && cd {SC} && git checkout -q -- .')
def tests():
    pats=' '.join(x+'/...' for x in sh('go list -m',cwd=SC,env=ENV).stdout.split())
    b=sh(f'go build {pats}',cwd=SC,env=ENV)
    if b.returncode: return 'BUILD '+b.stderr[-600:]
    sh(f'go test -json -vet=off -count=1 {pats} > /tmp/w/sc.json',cwd=SC,env=ENV)
    sh('python3 /opt/vp/results.py /tmp/w/sc.out.json gojson:/tmp/w/sc.json')
    o=json.load(open('/tmp/w/sc.out.json')); ps=set(o.get('passed',o.get('pass',[])))
    m=sorted(stable-ps)
    sh('git checkout -q -- testdata',cwd=SC)
    return 'TESTS '+str(m[:5]) if m else ''
def main():
    want=sys.argv[1:]
    ents=[]
    for f in sorted(glob.glob(V+'/tools/seeds_*.py')):
        ns={};exec(open(f).read(),ns);ents+=ns['SEEDS']
    for s in ents:
        if want and s['id'] not in want: continue
        if not want and os.path.exists(f"{V}/seeded/{s['id']}/patch.diff"): continue
        fresh()
        d=f"/tmp/w/seed_{s['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/demo_test.go','w').write(s['test'])
        open(d+'/demo.sh','w').write(s.get('demo') or DEMO%dict(pkg=s.get('pkg','radix'),flags=s.get('flags','')))
        os.chmod(d+'/demo.sh',0o755)
        r=sh(f'bash {d}/demo.sh',cwd=SC)
        if r.returncode: print(s['id'],'DEMO FAILS ON BASE',(r.stdout+r.stderr)[-1500:]); continue
        ok=True
        for path,old,new in s['subs']:
            p=f'{SC}/{path}'; t=open(p).read()
            if t.count(old)!=1: print(s['id'],'pattern count',t.count(old),path,old[:60]); ok=False; break
            open(p,'w').write(t.replace(old,new))
        if not ok: continue
        diff=sh('git diff',cwd=SC).stdout
        e=tests()
        if e: print(s['id'],e); continue
        r=sh(f'bash {d}/demo.sh',cwd=SC)
        if r.returncode==0: print(s['id'],'DEMO PASSES WITH PATCH'); continue
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        dst=f"{V}/seeded/{s['id']}"; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst); shutil.rmtree(d)
        # what do the checks say?
        a=sh('/tmp/an checkall',cwd=SC,env=dict(ENV,VERIF_REPO=SC))
        hits={};cur=''
        for l in a.stdout.splitlines():
            if l[:1]=='P': cur=l.split()[0]
            elif l.startswith('   VIOL'): hits.setdefault(cur,l.strip()[:170])
        print(s['id'],'KEPT','caught' if s['prop'] in hits else 'MISSED',sorted(hits),hits.get(s['prop'],''))
    shutil.rmtree(SC,ignore_errors=True)
main()
