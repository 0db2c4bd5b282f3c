#!/usr/bin/env python3
"""Development tool: triage of mutants that survive the tests. Path models of every harness (./check ID quick -dump DIR)
are run natively against the mutant; a mutant on which all of them pass is left for the symbolic checks.

usage: mutfast.py survivors.jsonl JOBDIR results.jsonl [WORKERS]"""
import json,os,sys,subprocess,shutil,threading,queue,time,signal,glob
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='0',GOMAXPROCS='2')
W='/tmp/mutfast'
def run(cmd,cwd,t):
    p=subprocess.Popen(['bash','-c','ulimit -v 8000000; '+cmd],cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,''
ms=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[3]; done=set()
if os.path.exists(out): done={json.loads(l)['i'] for l in open(out)}
q=queue.Queue(); lock=threading.Lock()
for m in ms:
    if m['i'] not in done: q.put(m)
orig={f:open('/repo/'+f,'rb').read() for f in {m['file'] for m in ms}}
files=sorted(glob.glob(sys.argv[2]+'/*.json'),key=lambda f:os.path.getsize(f))
heat={}
def work(k):
    r,v='%s/r%d'%(W,k),'%s/v%d'%(W,k)
    for d in (r,v):
        if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo',r); os.makedirs(v); shutil.copytree('/verif/harness',v+'/harness')
    g=open(v+'/harness/go.mod').read().replace('=> /repo','=> '+r); open(v+'/harness/go.mod','w').write(g)
    shutil.copytree(sys.argv[2],v+'/jobs')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        s=orig[m['file']]; b=s[:m['off']]+m['new'].encode()+s[m['end']:]
        open(r+'/'+m['file'],'wb').write(b)
        t0=time.time(); res=None
        rc,o=run('go build -o %s/nat ./cmd/native'%v,v+'/harness',120)
        if rc: res='build '+o[-200:]
        else:
            key=(m['file'],m['fn'])
            hs=heat.setdefault(key,{})
            for f in sorted(files,key=lambda f:-hs.get(f,0)):
                rc,o=run('%s/nat %s/jobs/%s'%(v,v,os.path.basename(f)),v,40)
                bad=[l for l in o.splitlines() if l.startswith('RES') and '"status":"ok"' not in l]
                if bad or rc:
                    res=os.path.basename(f)[:-5]+' '+(bad[0][:150] if bad else 'rc %d'%rc); hs[f]=hs.get(f,0)+1
                    break
        open(r+'/'+m['file'],'wb').write(s)
        m['fast']=res; m['t']=round(time.time()-t0,1)
        with lock: open(out,'a').write(json.dumps(m)+'\n')
ts=[threading.Thread(target=work,args=(k,)) for k in range(int(sys.argv[4]) if len(sys.argv)>4 else 7)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W)
