"""Framework: build the harness from /repo, run cases, run TLC, give the verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
SPEC=os.path.join(V,"spec")
CP="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN="-O1 -g1 -fsanitize=address,undefined -fno-sanitize=bool,enum -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -Wno-error -w"
class CheckError(Exception): pass

class Ctx:
    def __init__(self,pid):
        self.pid=pid
        self.tier=os.environ.get("VERIF_TIER","quick")
        self.seed=int(os.environ.get("VERIF_SEED","1"))
        self.quick=self.tier!="thorough"
        self.rng=random.Random(self.seed*1000003+int(hashlib.md5(pid.encode()).hexdigest()[:6],16))
        self.t0=time.time()
        self.scratch=tempfile.mkdtemp(prefix="verif-%s-"%pid)
        self.states=0; self.trans=0; self.ntraces=0; self.nevents=0
        self.models=[]; self.samples=[]; self.viol=[]; self.assumptions=[]; self.extra={}
        self.known=load_known(pid); self.known_hit=set()
    def n(self,q,t): return q if self.quick else t
    def log(self,*a): print("[%s %5.1fs]"%(self.pid,time.time()-self.t0),*a,flush=True)
    def close(self): shutil.rmtree(self.scratch,ignore_errors=True)

def load_known(pid):
    f=os.path.join(V,"known_findings.jsonl"); r=[]
    if os.path.exists(f):
        for l in open(f):
            l=l.strip()
            if l and not l.startswith("#"):
                d=json.loads(l)
                if d.get("property")==pid and d.get("status")=="known": r.append(d)
    return r

# ---------------------------------------------------------------- build
def build(ctx,target,flags=SAN,tag="san"):
    b=os.path.join(V,".build",tag if REPO=="/repo" else tag+"-"+hashlib.md5(REPO.encode()).hexdigest()[:6])
    os.makedirs(b,exist_ok=True)
    lock=open(b+".lock","w")
    import fcntl; fcntl.flock(lock,fcntl.LOCK_EX)
    env=dict(os.environ,CC="/usr/bin/gcc",CXX="/usr/bin/g++")
    def conf():
        return subprocess.run(["cmake","-S",os.path.join(V,"harness"),"-B",b,"-G","Ninja","-DCMAKE_BUILD_TYPE=Debug","-DREPO="+REPO,"-DCMAKE_CXX_FLAGS="+flags],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    r=conf()
    if r.returncode!=0:
        shutil.rmtree(b,ignore_errors=True); os.makedirs(b,exist_ok=True); r=conf()
        if r.returncode!=0: raise CheckError("cmake failed:\n"+r.stdout[-4000:])
    r=subprocess.run(["ninja","-C",b,target],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0: raise CheckError("build failed:\n"+r.stdout[-6000:])
    ctx.log("built",target)
    return os.path.join(b,target)

# ---------------------------------------------------------------- running cases
ASAN={"ASAN_OPTIONS":"detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0","UBSAN_OPTIONS":"print_stacktrace=1:exitcode=99"}
def _shard(binary,cases,cwd,env,timeout):
    """run the cases of one shard, restarting after crashes; returns {id: [events]}"""
    res={}; todo=list(cases); k=0
    while todo:
        k+=1
        cf=os.path.join(cwd,"cases%d.ndjson"%k); of=os.path.join(cwd,"out%d.ndjson"%k)
        with open(cf,"w") as f:
            for c in todo: f.write(json.dumps(c,separators=(",",":"))+"\n")
        ef=open(os.path.join(cwd,"err%d.txt"%k),"wb")
        try:
            p=subprocess.run([binary,cf,of],cwd=cwd,env=env,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=ef,timeout=timeout)
            rc=p.returncode
        except subprocess.TimeoutExpired: rc=97
        ef.close()
        done=0
        if os.path.exists(of):
            for l in open(of,errors="replace"):
                try: d=json.loads(l)
                except Exception: continue
                if "end" in d: done+=1
                else: res.setdefault(d["c"],[]).append(d["e"])
        for c in todo[:done]: res.setdefault(c["id"],[])
        if rc==0:
            if done!=len(todo): raise CheckError("harness finished early")
            break
        if rc==96 or done>=len(todo): raise CheckError("harness error rc=%s\n%s"%(rc,tail(ef.name)))
        bad=todo[done]
        kind="hang" if rc==97 else "crash"
        res.setdefault(bad["id"],[]).append({"op":kind,"detail":crash_line(ef.name) if kind=="crash" else "no answer in time"})
        todo=todo[done+1:]
        os.remove(cf); os.remove(of)
        if k>40:   # mass failure: enough evidence
            for c in todo: res[c["id"]]=None
            break
    return res
def tail(f,n=3000):
    try: return open(f,errors="replace").read()[-n:]
    except OSError: return ""
def crash_line(f):
    t=tail(f,200000)
    m=re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|Assertion [^\n]*|terminate called[^\n]*\n[^\n]*|gsl: [^\n]*)",t)
    return re.sub(r"0x[0-9a-f]+","0x",m.group(1))[:200] if m else (t.strip()[-200:] or "killed")
def run_cases(ctx,binary,cases,shards=8,timeout=600,env=None,name="run"):
    from concurrent.futures import ThreadPoolExecutor
    e=dict(os.environ); e.update(ASAN); e["OMP_NUM_THREADS"]="1"
    if env: e.update(env)
    shards=max(1,min(shards,len(cases)))
    parts=[cases[i::shards] for i in range(shards)]
    dirs=[tempfile.mkdtemp(prefix=name,dir=ctx.scratch) for _ in parts]
    with ThreadPoolExecutor(shards) as ex:
        rs=list(ex.map(lambda a:_shard(binary,a[0],a[1],e,timeout),zip(parts,dirs)))
    res={}
    for r in rs: res.update(r)
    for d in dirs: shutil.rmtree(d,ignore_errors=True)
    return res

# ---------------------------------------------------------------- TLC
def tlc(ctx,module,cfg=None,env=None,workers=8,args=(),timeout=800,heap="6g"):
    """run TLC on spec/<module>.tla in a private copy of spec/; returns parsed result"""
    d=tempfile.mkdtemp(prefix="tlc",dir=ctx.scratch)
    for f in os.listdir(SPEC):
        if f.endswith((".tla",".cfg")): shutil.copy(os.path.join(SPEC,f),d)
    cfgf=cfg or module+".cfg"
    if cfg and "\n" in cfg:
        cfgf="gen.cfg"; open(os.path.join(d,cfgf),"w").write(cfg)
    e=dict(os.environ); e.pop("JAVA_TOOL_OPTIONS",None)
    if env: e.update({k:str(v) for k,v in env.items()})
    cmd=["java","-XX:+UseParallelGC","-Xmx"+heap,"-Xss64m","-cp",CP,"tlc2.TLC","-workers",str(workers),"-config",cfgf,"-metadir",os.path.join(d,"meta"),"-noGenerateSpecTE",*args,module+".tla"]
    try: p=subprocess.run(cmd,cwd=d,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors="replace")
    except subprocess.TimeoutExpired: raise CheckError("TLC timed out on "+module)
    out=p.stdout
    r={"rc":p.returncode,"out":out,"states":0,"distinct":0,"rejects":[],"emits":[]}
    m=re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found",out)
    if m: r["states"]=int(m[-1][0].replace(",","")); r["distinct"]=int(m[-1][1].replace(",",""))
    else:
        m=re.findall(r"The number of states generated: ([\d,]+)",out)
        if m: r["states"]=r["distinct"]=int(m[-1].replace(",",""))
    for l in out.splitlines():
        if l.startswith('<<"REJECT"'):
            r["rejects"].append(l)
        elif l.startswith('"EMIT '):
            r["emits"].append(json.loads(json.loads(l)[5:]))
    shutil.rmtree(d,ignore_errors=True)
    r["emits"].sort(key=lambda x:json.dumps(x,sort_keys=True))      # the workers print in any order
    return r
def model_check(ctx,module,cfg=None,env=None,workers=8,args=(),timeout=800,what=""):
    """exhaustive check of a design model; any failure is an error of the check, not of the code"""
    r=tlc(ctx,module,cfg,env,workers,args,timeout)
    if r["rc"]!=0: raise CheckError("model %s did not check (rc %s):\n%s"%(module,r["rc"],r["out"][-5000:]))
    ctx.states+=r["distinct"]; ctx.trans+=r["states"]
    ctx.models.append({"module":module,"what":what,"distinct_states":r["distinct"],"states_generated":r["states"],"emitted":len(r["emits"])})
    ctx.log("model",module,"states",r["distinct"],"emitted",len(r["emits"]))
    return r

# ---------------------------------------------------------------- trace validation
def validate(ctx,tmodule,traces,cfg=None,workers=8,env=None,timeout=800,depth=0):
    """traces: list of (id, events). Returns {rejected id: position}"""
    if not traces: return {}
    f=os.path.join(ctx.scratch,"traces.ndjson")
    with open(f,"w") as o:
        for i,ev in traces: o.write(json.dumps({"id":i,"ev":ev},separators=(",",":"))+"\n")
    e={"TRACES":f}; e.update(env or {})
    r=tlc(ctx,tmodule,cfg,e,workers,("-deadlock",),timeout)
    if r["rc"]!=0:
        if "The error occurred when TLC was evaluating" not in r["out"] and "but it produced the following error" not in r["out"] and "StackOverflow" not in r["out"]:
            raise CheckError("trace validation %s failed (rc %s):\n%s"%(tmodule,r["rc"],r["out"][-5000:]))
        # a record of the code has a shape the specification has no meaning for: find which trace it is
        if len(traces)==1:
            ctx.log("trace",traces[0][0],"has no meaning in the specification:",r["out"][-1500:] if depth==0 else "")
            ctx.evalerr=getattr(ctx,"evalerr",0)+1
            return {traces[0][0]:1}
        h=len(traces)//2; rej=validate(ctx,tmodule,traces[:h],cfg,workers,env,timeout,depth+1)
        if getattr(ctx,"evalerr",0)>=3: return rej
        rej.update(validate(ctx,tmodule,traces[h:],cfg,workers,env,timeout,depth+1)); return rej
    ctx.tv_states=getattr(ctx,"tv_states",0)+r["distinct"]
    rej={}
    for l in r["rejects"]:
        m=re.match(r'<<"REJECT", (-?\d+), (\d+)',l)
        rej[int(m.group(1))]=int(m.group(2))
    # every trace must have been consumed: one state per event + the initial one (+1 for a rejected trace's mark)
    want=sum(len(ev)+1 for i,ev in traces if i not in rej)
    want+=sum(rej[i]+1 for i in rej)
    if r["distinct"]!=want: raise CheckError("trace validation consumed %d states, expected %d"%(r["distinct"],want))
    return rej

def conformance(ctx,binary,tmodule,cases,cfg=None,env=None,shards=8,name="cases",hardened=True,project=None,tenv=None,chunk=None):
    """run the cases in the code, validate the traces in TLC, confirm rejections by a full re-run"""
    for k,c in enumerate(cases): c["id"]=k
    proj=project or (lambda c,ev:ev)
    res=run_cases(ctx,binary,cases,shards,env=env)
    skipped=[c for c in cases if res.get(c["id"],[]) is None]
    traces=[(c["id"],proj(c,res[c["id"]])) for c in cases if res.get(c["id"],[]) is not None]
    rej={}
    chunk=chunk or 20000
    for k in range(0,len(traces),chunk):
        rej.update(validate(ctx,tmodule,traces[k:k+chunk],cfg,env=tenv))
    ctx.ntraces+=len(traces); ctx.nevents+=sum(len(ev) for _,ev in traces)
    byid={c["id"]:c for c in cases}; tr=dict(traces)
    for i,ev in traces[:2]+traces[len(traces)//2:len(traces)//2+1]:
        if len(ctx.samples)<8: ctx.samples.append({"case":trunc(byid[i]),"events":trunc(ev)})
    ctx.log(name,": %d traces, %d events, %d rejected"%(len(traces),sum(len(ev) for _,ev in traces),len(rej)))
    if rej:
        # confirm: run the rejected cases again, alone, from scratch
        some=sorted(rej)[:12]
        again=run_cases(ctx,binary,[byid[i] for i in some],1,env=env,name="confirm")
        rej2=validate(ctx,tmodule,[(i,proj(byid[i],again[i])) for i in some if again.get(i) is not None],cfg,workers=1,env=tenv)
        for i in some:
            if i not in rej2: ctx.log("note: rejection of case",i,"did not repeat; ignored"); continue
            ev=tr[i]; pos=rej2[i]; e2=proj(byid[i],again[i])
            bad=e2[pos-1] if pos-1<len(e2) else None
            kf=match_known(ctx,byid[i],bad)
            if kf: ctx.known_hit.add(kf["id"]); continue
            ctx.viol.append({"set":name,"case":byid[i],"position":pos,"event":bad,"trace":e2})
        if not ctx.viol and len(rej)>len(some):
            # the first few were known findings or did not repeat: look at all of them
            rest=[i for i in sorted(rej) if i not in some]
            again=run_cases(ctx,binary,[byid[i] for i in rest],1,env=env,name="confirm")
            rej3=validate(ctx,tmodule,[(i,proj(byid[i],again[i])) for i in rest if again.get(i) is not None],cfg,workers=1,env=tenv)
            for i in sorted(rej3):
                e2=proj(byid[i],again[i]); bad=e2[rej3[i]-1] if rej3[i]-1<len(e2) else None
                kf=match_known(ctx,byid[i],bad)
                if kf: ctx.known_hit.add(kf["id"]); continue
                ctx.viol.append({"set":name,"case":byid[i],"position":rej3[i],"event":bad,"trace":e2})
    return res
def match_known(ctx,case,ev):
    for k in ctx.known:
        m=k.get("match",{})
        if case.get("kf")==k["id"] and (not m or all(str(ev.get(a))==str(b) for a,b in m.items())): return k
    return None
def trunc(x,depth=0):
    if isinstance(x,list):
        r=[trunc(v,depth+1) for v in x[:24]]
        return r+["...(%d)"%len(x)] if len(x)>24 else r
    if isinstance(x,dict): return {k:trunc(v,depth+1) for k,v in x.items()}
    if isinstance(x,str) and len(x)>300: return x[:300]+"..."
    return x

def traces_of(res,n):
    """about n of the recorded traces, from all over the run"""
    it=sorted(res.items()); return it[::max(1,len(it)//n)]
def binding_demo(ctx,tmodule,traces,corrupt,cfg=None,tenv=None):
    """show that the trace spec is not vacuous: corrupted traces must be rejected"""
    bad=[]
    if ctx.viol: return
    for i,ev in traces:
        if any(e.get("op") in("crash","hang") for e in ev): continue
        c=corrupt(json.loads(json.dumps(ev)))
        if c is not None: bad.append((i,c))
    if not bad: return
    rej=validate(ctx,tmodule,bad,cfg,env=tenv)
    ctx.extra["corrupted_traces_rejected"]="%d/%d"%(len(rej),len(bad))
    if len(bad)>4 and not rej: raise CheckError("binding demonstration failed: corrupted trace accepted in "+tmodule)

# ---------------------------------------------------------------- verdict
def finish(ctx,level="model_checking"):
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    cov={"states":ctx.states,"transitions":ctx.trans,"traces_validated_against_impl":ctx.ntraces,
         "trace_events_validated":ctx.nevents,"models":ctx.models,"samples":ctx.samples or ["none"]}
    cov.update(ctx.extra)
    ev={"property":ctx.pid,"tier":ctx.tier if ctx.tier in("quick","thorough") else "quick","seed":ctx.seed,"level":level,"coverage":cov,
        "assumptions":ctx.assumptions,"wall_s":round(time.time()-ctx.t0,2),"violations":len(ctx.viol)}
    json.dump(ev,open(os.path.join(V,"evidence",ctx.pid+".json"),"w"),indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s"%(ctx.pid,k["what"]))
    if ctx.viol:
        rp=os.path.join(V,"evidence","replay-%s.json"%ctx.pid)
        json.dump(ctx.viol[:12],open(rp,"w"),indent=1)
        v=ctx.viol[0]
        print("first violation:",json.dumps(trunc(v["case"]))[:1500]); print("  at event:",json.dumps(trunc(v["event"]))[:1500])
        print("VIOLATION property=%s replay=%s"%(ctx.pid,rp))
        return 1
    print("OK property=%s states=%d traces=%d events=%d wall=%.1fs"%(ctx.pid,ctx.states,ctx.ntraces,ctx.nevents,time.time()-ctx.t0))
    return 0
