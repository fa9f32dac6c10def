#!/usr/bin/env python3
"""Makes and tests planted bugs. usage: plant.py SPEC.py [id...]
SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks,
edits=[(file, old, new[, count])], demo (Go test source) or demo_sh.
Writes /verif/seeded/<id>/ when the bug compiles, passes the tests and its demo works."""
import sys,os,subprocess,shutil,json,runpy,re
ENV=dict(os.environ,PATH='/opt/veriftools/go1.26.10/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',HOME='/root')
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package: exit 0 if the property holds.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.26.10/bin:$PATH" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
F="$(mktemp)"
trap 'rm -f "$F"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$F"
go test %(race)s-overlay "$F" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./%(dir)s
'''
def sh(cmd,cwd,t=900,env=ENV):
    try: r=subprocess.run(cmd,cwd=cwd,env=env,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired: return 99,'timeout'
    return r.returncode,r.stdout
def passed(out):
    s=set()
    for l in out.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and d.get('Test'): s.add(d['Package']+' '+d['Test'])
    return s
W='/tmp/plant'
def copy():
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',W])
def recheck(ids):
    for id in sorted(os.listdir('/verif/seeded')):
        if ids and id not in ids: continue
        copy()
        rc,o=sh('git apply /verif/seeded/%s/patch.diff'%id,W)
        if rc: print(id,'DOES NOT APPLY',o); continue
        check(id,json.load(open('/verif/seeded/%s/meta.json'%id))['property'])
def main():
    if sys.argv[1]=='--recheck': return recheck(set(sys.argv[2:]))
    bugs=runpy.run_path(sys.argv[1])['BUGS']
    want=set(sys.argv[2:])
    copy()
    rc,out=sh('go test -json -vet=off -count=1 ./...',W); base=passed(out)
    print('base tests',len(base))
    for b in bugs:
        if want and b['id'] not in want: continue
        sh('git checkout -q -- . && git clean -fdq',W)
        ok=True
        for e in b['edits']:
            p=os.path.join(W,e[0]); s=open(p).read()
            n=s.count(e[1])
            if n!=(e[3] if len(e)>3 else 1): print(b['id'],'EDIT: %d matches in %s of %r'%(n,e[0],e[1][:60])); ok=False; break
            open(p,'w').write(s.replace(e[1],e[2]))
        if not ok: continue
        sh('gofmt -w '+' '.join({e[0] for e in b['edits']}),W)
        rc,diff=sh('git diff',W)
        rc,out=sh('go build ./... && go vet ./ 2>&1 | head -5; go build ./...',W)
        if rc: print(b['id'],'BUILD',out[-800:]); continue
        rc,out=sh('go test -json -vet=off -count=1 ./...',W,300); missing=base-passed(out)
        if missing: print(b['id'],'TESTS FAIL',sorted(missing)[:5]); continue
        d='/verif/seeded/'+b['id']
        tmp='/tmp/plantdemo'; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        if 'demo' in b:
            open(tmp+'/demo_test.go','w').write(b['demo'].lstrip())
            open(tmp+'/demo.sh','w').write(DEMO%dict(dir=b.get('dir',''),race='-race ' if b.get('race') else ''))
        else:
            open(tmp+'/demo.sh','w').write(b['demo_sh'].lstrip())
        for f,c in b.get('files',{}).items(): open(tmp+'/'+f,'w').write(c)
        os.chmod(tmp+'/demo.sh',0o755)
        rc1,o1=sh('bash %s/demo.sh'%tmp,W,300)
        rc0,o0=sh('bash %s/demo.sh'%tmp,'/repo',300)
        if rc0!=0: print(b['id'],'DEMO FAILS ON CLEAN',o0[-1500:]); continue
        if rc1==0: print(b['id'],'DEMO PASSES WITH BUG',o1[-500:]); continue
        shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmp,d)
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        check(b['id'],b['property'])
def check(id,prop):
    env=dict(ENV,REPO=W,SIM_BUILD='/tmp/plantb')
    for k in ('GOFLAGS','GOCACHE'): env.pop(k,None)
    rc,out=sh('bash /verif/check.sh %s quick'%prop,'/verif',900,env)
    viol=[l for l in out.splitlines() if l.startswith('VIOLATION')]
    cls=[l for l in out.splitlines() if l.startswith('violation')]
    runs=re.findall(r'runs=(\d+)',out)
    print(id,prop,'CAUGHT' if rc==1 and viol else 'MISSED rc=%d'%rc,'runs',runs,(cls or [out[-300:]])[0][:220],flush=True)
if __name__=='__main__': main()
