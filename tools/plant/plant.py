#!/usr/bin/env python3
"""plant.py [ids...]: builds /verif/seeded/<id> from bugs*.py specs, confirming each in a scratch copy."""
import json, os, subprocess, sys, shutil, glob, importlib.util
W='/tmp/pl/w'
ENV=dict(os.environ)
ENV.update(PATH='/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:'+ENV['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
def sh(c,cwd=W,t=300):
    p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t)
    return p.returncode,p.stdout+p.stderr
def reset():
    rc,o=sh('git checkout -q -- . && git clean -fdq'); assert rc==0,o
def stable():
    rc,o=sh('go test -json -vet=off -count=1 ./...')
    open('/tmp/pl/log','w').write(o)
    sh('python3 /opt/vp/results.py /tmp/pl/out.json gojson:/tmp/pl/log')
    r=json.load(open('/tmp/pl/out.json'))
    return [x for x in BASE if x not in r['passed']]
LIB=open('/tmp/pl/lib.go.txt').read(); CMD=open('/tmp/pl/cmd.go.txt').read()
DEMO='''#!/bin/bash
# Runs demo_test.go with the package's own code, through an overlay.
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
echo "{\\"Replace\\":{\\"$PWD/%(sub)szz_demo_test.go\\":\\"$d/demo_test.go\\"}}" >"$t/overlay.json"
go test %(race)s-vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' %(pkg)s
'''
def main():
    bugs={}
    for f in sorted(glob.glob('/tmp/pl/bugs*.py')):
        s=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS: assert b['id'] not in bugs,b['id']; bugs[b['id']]=b
    if not os.path.isdir(W): subprocess.check_call('git clone -q /repo '+W,shell=True)
    sh('git fetch -q && git reset -q --hard origin/HEAD')
    ids=sys.argv[1:] or [i for i in bugs if not os.path.exists('/verif/seeded/%s/patch.diff'%i)]
    for i in ids:
        b=bugs[i]; reset()
        ok=True
        for f,old,new in b['edits']:
            p=W+'/'+f; s=open(p).read()
            if s.count(old)!=1: print(i,'EDIT',f,s.count(old),repr(old[:60])); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: continue
        files=' '.join(sorted({e[0] for e in b['edits']}))
        if b.get('imports'): sh('goimports -w '+files)
        rc,o=sh('gofmt -l '+files)
        if o.strip(): sh('gofmt -w '+files)
        rc,o=sh('go build ./... ')
        if rc: print(i,'BUILD',o[-800:]); continue
        miss=stable()
        if miss: print(i,'TESTS',miss[:4]); continue
        d='/tmp/pl/demo/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        sub='cmd/ofx/' if b.get('cmd') else ''
        open(d+'/demo_test.go','w').write((CMD if sub else LIB)+b['demo'])
        shutil.copy(d+'/demo_test.go',W+'/'+sub+'zz_demo_test.go')
        rc,o=sh('goimports %szz_demo_test.go > %s/demo_test.go'%(sub,d))
        os.remove(W+'/'+sub+'zz_demo_test.go')
        if rc: print(i,'IMPORTS',o); continue
        open(d+'/demo.sh','w').write(DEMO%dict(sub=sub,pkg='./cmd/ofx' if sub else '.',race='-race ' if b.get('race') else ''))
        os.chmod(d+'/demo.sh',0o755)
        rc,patch=sh('git diff')
        rc,o=sh('bash %s/demo.sh'%d)
        if rc==0: print(i,'DEMO passes with patch'); continue
        if 'build failed' in o or 'setup failed' in o: print(i,'DEMOBUILD',o[-1500:]); continue
        why=o
        reset()
        rc,o=sh('bash %s/demo.sh'%d)
        if rc!=0: print(i,'DEMO fails clean',o[-1500:]); continue
        o='/verif/seeded/'+i; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        for f in ('demo.sh','demo_test.go'): shutil.copy(d+'/'+f,o+'/'+f)
        open(o+'/patch.diff','w').write(patch)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(o+'/meta.json','w'),indent=1)
        print(i,'OK',[l for l in why.splitlines() if 'demo' in l][:1])
main()
