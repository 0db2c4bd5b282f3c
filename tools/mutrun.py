#!/usr/bin/env python3
"""Development tool: which small changes survive the tests (phase tests), and which of those no check reports (phase checks).

usage: mutate REPO FILE... > muts.jsonl; mutrun.py tests muts.jsonl survivors.jsonl [WORKERS]
       mutrun.py checks survivors.jsonl results.jsonl [SEED] [COUNT]"""
import json,os,sys,subprocess,shutil,random,threading,queue,time,signal
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='0')
W=os.environ.get('MUTWORK','/tmp/mutwork')
def run(cmd,cwd,t):
    p=subprocess.Popen(['bash','-c','ulimit -v 12000000; '+cmd],cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,''
def apply(d,m,orig):
    s=orig[m['file']]
    b=s[:m['off']]+m['new'].encode()+s[m['end']:]
    open(d+'/'+m['file'],'wb').write(b)
def load(p): return [json.loads(l) for l in open(p)]
def tests(inp,out,n):
    ms=load(inp); done=set()
    if os.path.exists(out+'.done'): done=set(l.strip() for l in open(out+'.done'))
    q=queue.Queue(); lock=threading.Lock()
    for i,m in enumerate(ms):
        m['i']=i
        if str(i) not in done: q.put(m)
    orig={f:open('/repo/'+f,'rb').read() for f in {m['file'] for m in ms}}
    def work(k):
        d='%s/t%d'%(W,k)
        if os.path.exists(d): shutil.rmtree(d)
        shutil.copytree('/repo',d)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: break
            apply(d,m,orig)
            rc,o=run('go build ./... && go test -vet=off -failfast -count=1 -timeout 20s ./...',d,60)
            open(d+'/'+m['file'],'wb').write(orig[m['file']])
            with lock:
                if rc==0: open(out,'a').write(json.dumps(m)+'\n')
                open(out+'.done','a').write(str(m['i'])+'\n')
    ts=[threading.Thread(target=work,args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
# which checks are asked first, by file or function
ALL=['C%02d'%i for i in range(1,38) if i!=3]
FIRST={'bytecode/bytecode.go':['C01','C02','C06','C04','C25','C05','C11','C09','C10','C12','C31'],'bytecode/bytecode_instructions.go':['C01','C02','C09','C10','C31','C11'],
'bytecode/cache/bytecode_cache.go':['C14','C13','C15'],'copy_schema.go':['C15','C37','C32','C22'],'directives.go':['C34','C10','C22'],'enums.go':['C34','C18','C22','C05','C37'],
'grahql_types.go':['C22','C35'],'helpers/encodeFloat.go':['C29','C02'],'helpers/encodeString.go':['C17','C02','C20'],'helpers/time.go':['C19'],
'implement_helpers.go':['C21','C24','C13','C27'],'inject_schema.go':['C22','C37','C35','C15','C16'],'interfaces.go':['C28','C34','C22'],'apollo_tracing.go':['C30','C15'],
'parse.go':['C33','C34','C26','C22','C07','C28','C31','C18'],'resolver.go':['C02','C07','C11','C05','C31','C20','C33','C10','C09','C16','C18','C28','C30','C24','C13','C08','C12','C27','C19','C29','C36','C04'],
'type_rename.go':['C34','C28'],'tester/tester.go':['C35']}
def checks(inp,out,seed,count):
    ms=load(inp); random.Random(seed).shuffle(ms)
    seen=set()
    if os.path.exists(out): seen={json.loads(l)['i'] for l in open(out)}
    ms=[m for m in ms if m['i'] not in seen]
    # one function after the other, so that every function gets its turn
    rank={}
    for m in ms:
        k=(m['file'],m['fn']); rank[k]=rank.get(k,0)+1; m['rank']=rank[k]
    ms=sorted(ms,key=lambda m:m.pop('rank'))[:count]
    orig={f:open('/repo/'+f,'rb').read() for f in {m['file'] for m in ms}}
    r,v=W+'/r',W+'/v'
    for d in (r,v):
        if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo',r); shutil.copytree('/verif',v,ignore=shutil.ignore_patterns('.git','seeded','build','evidence','replays'))
    g=open(v+'/harness/go.mod').read().replace('=> /repo','=> '+r); open(v+'/harness/go.mod','w').write(g)
    sh='/opt/vp/env.sh'
    for m in ms:
        apply(r,m,orig)
        order=FIRST.get(m['file'],[]); order=order+[c for c in ALL if c not in order and not os.environ.get('MUTFIRST')]
        res=None; odd=[]; t0=time.time()
        for c in order:
            rc,o=run('. %s; ulimit -v unlimited; ./check %s quick -noev -budget 12'%(sh,c),v,400)
            if rc==1:
                res=c; break
            if rc!=0: odd.append([c,rc,o[-300:]])
        open(r+'/'+m['file'],'wb').write(orig[m['file']])
        m['killed']=res; m['odd']=odd; m['t']=round(time.time()-t0)
        open(out,'a').write(json.dumps(m)+'\n')
        print(m['file'],m['line'],m['fn'],m['what'][:100].replace('\n',' '),'=>',res,odd and [x[:2] for x in odd],m['t'],flush=True)
os.makedirs(W,exist_ok=True)
if sys.argv[1]=='tests': tests(sys.argv[2],sys.argv[3],int(sys.argv[4]) if len(sys.argv)>4 else 8)
else: checks(sys.argv[2],sys.argv[3],int(sys.argv[4]) if len(sys.argv)>4 else 1,int(sys.argv[5]) if len(sys.argv)>5 else 100)
