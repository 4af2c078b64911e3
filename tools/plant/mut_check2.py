import json,subprocess,os,sys,time
SURV,OUT,PART,NP=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
env=dict(os.environ)
for l in subprocess.run('. /opt/vp/env.sh; env',shell=True,capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
env['VERIF_SEED']='1'; env['OFX_BIN']='/tmp/mc%d.ofx'%PART
SETS={'types.go':'C12 C13 C14 C17 C01 C03','response.go':'C06 C07 C11 C09 C01 C03 C08 C02 C05','request.go':'C09 C10 C24 C08','util.go':'C19 C09 C14 C25'}
ST='C03 C09 C08 C10 C01 C16 C15 C17 C07'
CMD='C26 C29 C25 C27 C28'
CLI='C22 C21 C19 C18 C20 C24'
done=set()
for f in (OUT,'/tmp/mut_res.jsonl'):
    if os.path.exists(f): done|={json.loads(l)['id']+json.loads(l)['file'] for l in open(f)}
fo=open(OUT,'a')
ms=[json.loads(l) for l in open(SURV)]
for i,m in enumerate(ms):
    if os.path.exists('/tmp/mut_stop'): break
    if i%NP!=PART: continue
    if m['id']+m['file'] in done: continue
    if m['op'] in('longer text','shorter text','empty text') and m['file']!='response.go': continue
    if m['op'] in('omitempty','no omitempty') : continue
    p='/repo/'+m['file']; s=open(p,'rb').read()
    open(p,'wb').write(s[:m['start']]+m['to'].encode()+s[m['end']:])
    st=time.time(); killer=None; odd=[]
    try:
        r=subprocess.run('cd /verif/harness/ofxmon && go build -o /tmp/mc%d.ofxmon . && cd /repo && go build -o /tmp/mc%d.ofx ./cmd/ofx'%(PART,PART),shell=True,env=env,capture_output=True,text=True)
        if r.returncode: killer='BUILD '+r.stderr[-300:]
        else:
            f=m['file']
            o=CMD if f.startswith('cmd/') else SETS.get(f) or (CLI if 'client' in f else ST)
            for c in o.split():
                try:
                    r=subprocess.run(['/tmp/mc%d.ofxmon'%PART,c,'-verif','/tmp/mc%d.vtest'%PART],env=env,capture_output=True,text=True,errors='replace',timeout=600)
                    if r.returncode==1: killer=c; break
                    if r.returncode!=0: odd.append((c,r.returncode,(r.stdout+r.stderr)[-300:]))
                except subprocess.TimeoutExpired: odd.append((c,'timeout'))
    finally: open(p,'wb').write(s)
    m['killer']=killer; m['odd']=odd; m['t']=round(time.time()-st,1)
    fo.write(json.dumps(m)+'\n'); fo.flush()
