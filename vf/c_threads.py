"""T01: separate objects may be used by different threads at the same time."""
from core import *
import os,subprocess
TS="-O0 -g1 -fsanitize=thread -fno-omit-frame-pointer -pthread -Wno-error -w"
PLAIN="-O1 -g1 -pthread -Wno-error -w"
KINDS=["numfield","anafield","grid2","dist3","code","closed","radial","integ","quad","conf","alg","err","sdt"]
def cfg(T,N,design,inv,qs="{1,2}"): return "SPECIFICATION Spec\nCONSTANTS T = %d\nN = %d\nDesign = \"%s\"\nQuestions = %s\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n"%(T,N,design,qs,inv)
def question(r,kind):
    if kind in("numfield","anafield"):
        pt=lambda:[r.choice([1000,1500,2000,2250,2900,3100,r.randint(500,4500)]),r.choice([0,0,300,-700]),r.choice([0,0,250,-600,1500,r.randint(-900,900)])]
        return {"op":"ask","q":r.randint(0,8),"a":pt()+pt()}
    if kind=="conf": return {"op":"ask","q":r.randint(0,3),"a":[r.randint(0,20)]}
    if kind in("alg","err","sdt","integ","quad"): return {"op":"ask","q":r.randint(0,5),"a":[r.randint(0,3000) for _ in range(4)]}
    return {"op":"ask","q":r.randint(0,5),"a":[r.choice([500,1000,1250,1500,2000,2600,r.randint(400,3000)]),r.choice([0,1000,2000,4000,5000,r.randint(0,4200)]),r.choice([-1000,0,1000,r.randint(-1000,1000)]),r.choice([0,0,250])]}
def call(r,kind):
    k=r.random()
    if k<.12: return {"op":"clone","q":0,"a":[]}
    if k<.22: return {"op":"set","q":r.randint(0,7),"a":[]}
    return question(r,kind)
def sanitized(ctx):
    """the driver under the thread sanitizer, at fixed addresses where that is possible (the sanitizer does not start at all addresses); without sanitizer where it cannot run"""
    b=build(ctx,"h_threads",flags=TS,tag="tsan")
    w=os.path.join(ctx.scratch,"threads.sh"); open(w,"w").write("#!/bin/sh\nsetarch -R true 2>/dev/null && exec setarch -R '%s' \"$@\"\nexec '%s' \"$@\"\n"%(b,b)); os.chmod(w,0o755)
    e=os.path.join(ctx.scratch,"empty"); open(e,"w").close()
    if all(subprocess.run([w,e,e+".out"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL).returncode==0 for _ in range(12)):
        ctx.extra["thread_sanitizer"]=True; return w
    ctx.log("the thread sanitizer does not run here"); ctx.extra["thread_sanitizer"]=False
    return build(ctx,"h_threads",flags=PLAIN,tag="plain")
def check_T01(ctx):
    model_check(ctx,"MCThreads",cfg(2,ctx.n(2,3),"own","Isolated"),what="all interleavings of the steps of two threads' calls, every program")
    model_check(ctx,"MCThreads",cfg(3,1 if ctx.quick else 2,"own","Isolated","{1}" if not ctx.quick else "{1,2}"),what="three threads")
    for d in("space","settings"):
        if tlc(ctx,"MCThreads",cfg(2,2,d,"Isolated"))["rc"]!=12: raise CheckError("the design with shared %s was not refuted"%d)
    ctx.extra["shared_designs_refuted"]=["space","settings"]
    orders=[e["order"] for T,N in((2,2),(2,3),(3,2)) for e in model_check(ctx,"MCThreads",cfg(T,N,"own","Emitted","{}"),what="every order in which the calls of %d threads can complete"%T)["emits"]]
    b=sanitized(ctx); r=ctx.rng
    cases=[]
    def add(kind,T,N,order=None,reps=2):
        if order is None:
            order=[t for t in range(1,T+1) for _ in range(N)]; r.shuffle(order)
        cases.append({"kind":kind,"seed":r.randint(0,200),"sep":r.choice([0,0,1,2]),"threads":[[call(r,kind) for _ in range(N)] for _ in range(T)],"order":order,"reps":reps})
    for kind in KINDS:
        for o in orders:
            if len(o)<=4 or r.random()<ctx.n(.12,1): add(kind,max(o),len(o)//max(o),o)
        for _ in range(ctx.n(6,60)): add(kind,r.choice([2,2,3,4]),r.choice([8,20,40]),reps=ctx.n(2,4))
    env={"TSAN_OPTIONS":"halt_on_error=1:exitcode=99:report_signal_unsafe=0"}
    res=conformance(ctx,b,"TThreads",cases,env=env,shards=4,name="threads")
    def corrupt(ev):
        for k,e in enumerate(ev):
            if e["op"]=="together" and e["rets"] and e["rets"][0]:
                q=[list(x) for x in e["rets"]]; q[0][0]="x"; return ev[:k]+[dict(e,rets=q)]+ev[k+1:]
        return None
    binding_demo(ctx,"TThreads",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],corrupt)
    return finish(ctx)
