"""N01: the Runge-Kutta integrator."""
from core import *
STD={"flat":False,"safe":[9,10]}
def new(r,i,**k):
    o=dict({"op":"new","id":i,"n":r.choice([1,1,2,3]),"tol":[1,10**9],"min":r.choice([[1,2],[1,4],[1,5],[1,2]]),"max":r.choice([[2,1],[2,1],[1,1],[3,1],[4,1],[3,2]])},**STD); o.update(k); return o
def poly(r,n,deg=3,win=None,nan=False):
    c=[[r.randint(-3,3) for _ in range(r.randint(1,deg+1))] for _ in range(n)]
    e={"k":"poly","c":c,"win":win or [],"nan":nan}
    if r.random()<.3: e["ptr"]=1
    return e
def window(r,nan=False):
    k=r.random()
    if k<.2: return None
    lo=[r.randint(1,40),r.choice([7,11,14])]; w=r.choice([[1,7],[1,14],[3,7],[2,11],[1,1],[1,99]])
    hi=[lo[0]*w[1]+w[0]*lo[1],lo[1]*w[1]]
    if k<.35: lo=[r.choice([0,0,1,2,3] if nan else [1,2,3]),r.choice([1,2,4])]; hi=[lo[0]+r.choice([1,50])*lo[1],lo[1]]     # a wall the integrator can run into exactly
    return [lo,hi]
def req(r,m):
    f=r.choice([[0,1],[1,1],[0,1],[1,2],[1,4],[3,4],[1,3],[7,8],[1,2]])
    if r.random()<.05: f=r.choice([[-1,4],[-1,1],[5,4],[-1,64]])
    return {"i":r.choice([0,1,2,3,m,m,max(0,m-1),r.randint(0,max(1,m))]),"f":f}
def dense(r,i,m,n=None):
    q=[req(r,m) for _ in range(n or r.choice([1,1,2,3,6]))]
    if r.random()<.5: q.sort(key=lambda x:x["i"]+x["f"][0]/x["f"][1])
    return {"op":"dense","id":i,"q":q}
def rng_(r,i,m):
    a,b=req(r,m),req(r,m)
    if r.random()<.7 and a["i"]+a["f"][0]/a["f"][1]>b["i"]+b["f"][0]/b["f"][1]: a,b=b,a
    nt=r.choice([0,1,2,3,4,5,8])
    if nt==1 and r.random()<.6: b=dict(a)
    return {"op":"range","id":i,"a":a,"b":b,"nt":nt}
def init(r,i,n,pos=False): return {"op":"init","id":i,"y":[r.randint(1,2) if pos else r.randint(-5,5) for _ in range(n)]}
def outs(r,i,m):
    k=r.random()
    return [dense(r,i,m)] if k<.5 else [rng_(r,i,m)] if k<.75 else [dense(r,i,m),rng_(r,i,m)]
def case(r,style=None):
    """one to three integrators, interleaved"""
    objs=[]; ops=[]
    for i in range(r.choice([1,1,1,2,3])):
        k=style or r.choice(["win","win","win","nan","err","lin","nat","flat","plain"])
        o=new(r,i); eq=None
        if k=="lin": o["tol"]=[10**6,1]; o["max"]=r.choice([[1,1],[2,1]]); 
        elif k=="nat": o["tol"]=[1,r.choice([10**8,10**9,10**9])]; o["plain"]=1; o["min"]=[1,5]; o["max"]=[10,1]
        elif k=="plain": o["plain"]=1; o["min"]=[1,5]; o["max"]=[10,1]
        elif k=="flat": o.update(flat=True,safe=r.choice([[1,2],[3,4],[1,4],[1,2]]),tol=[1000,1])
        elif k=="err": o["tol"]=r.choice([[1,1000],[1,100],[1,5000],[1,20]])
        if k in("nat","win") and r.random()<.2: o["beta"]=[r.choice([2,4]),50]; 
        objs.append({"o":o,"k":k,"m":0}); ops.append(o)
    def eq(x):
        r_=x["k"]; n=x["o"]["n"]; i=x["o"]["id"]
        if r_ in("win","plain"): e=poly(r,n,3,window(r))
        elif r_=="nan": e=poly(r,n,3,window(r,True),True)
        elif r_=="err": e=poly(r,n,4); [c.__setitem__(slice(0,5),(c+[0]*5)[:4]+[r.choice([0,1,-1,2,3]) if n>1 else r.choice([1,-1,2,-3])]) for c in e["c"]]
        elif r_=="flat":
            e=poly(r,n,3); [c.__setitem__(slice(0,5),(c+[0]*5)[:4]+[r.choice([1,-1,2])]) for c in e["c"]]
        elif r_=="lin": e={"k":"lin","M":[[r.randint(-1,1) for _ in range(n)] for _ in range(n)]}
        else: e={"k":r.choice(["ric","aff"])}
        return [{"op":"eq","id":i,"eq":e},init(r,i,n,r_=="nat")]
    for x in objs:
        if r.random()<.06: ops.append({"op":"step","id":x["o"]["id"]})
        ops+=eq(x)
    for _ in range(r.choice([4,10,20])*len(objs)):
        x=r.choice(objs); i=x["o"]["id"]; k=r.random()
        if k<.6: ops.append({"op":"step","id":i}); x["m"]+=1
        elif k<.85: ops+=outs(r,i,x["m"])
        elif k<.9: ops.append({"op":"toggle","id":i,"on":r.random()<.6})
        elif k<.95: ops.append(init(r,i,x["o"]["n"],x["k"]=="nat")); x["m"]=0
        else: ops+=eq(x); x["m"]=0
    for x in objs: ops+=outs(r,x["o"]["id"],x["m"])
    return {"ops":ops}
def long_case(r):
    o=new(r,0,max=[1,1]); c=[[r.choice([-1,1,0])] for _ in range(o["n"])]
    ops=[o,{"op":"eq","id":0,"eq":{"k":"poly","c":c,"win":[],"nan":False}}]
    if r.random()<.3: ops.append({"op":"toggle","id":0,"on":False})
    ops.append(init(r,0,o["n"])); m=0; mx=r.choice([1900,1900,2100,3300])
    for _ in range(r.choice([1,2,3,4])):
        k=r.choice([997,998,999,1000,1001,300,1]); 
        if m+k>mx: break
        m+=k; ops.append({"op":"many","id":0,"k":k})
        if r.random()<.3: ops.append({"op":"toggle","id":0,"on":r.random()<.6})
        for _ in range(3):
            q=[{"i":r.choice([0,m-1,m-2,997,998,999,1000,1001,r.randint(0,m)]),"f":r.choice([[0,1],[1,1],[1,2],[1,4]])} for _ in range(5)]; q=[dict(x,i=min(x["i"],m-1)) for x in q]
            if r.random()<.5: q.sort(key=lambda x:x["i"]+x["f"][0]/x["f"][1])
            ops.append({"op":"dense","id":0,"q":q})
        if r.random()<.3: ops.append(init(r,0,o["n"])); m=0; ops.append({"op":"step","id":0}); ops.append({"op":"many","id":0,"k":3}); ops.append(dense(r,0,4)); m=4
    return {"ops":ops}
def nmodel(ctx):
    cfg="SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Eqs = {%s}\nCONSTANT Sets = {%s}\nINVARIANTS Strict Outside Exact Positive Bounded DenseWhenFull%s\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n"
    d=ctx.n(5,6); model_check(ctx,"MCIntegrator",cfg%(d,"1,2,3,4,5","1,2,3",""),what="every history of %d operations, 5 equations, 3 settings"%d)
    return model_check(ctx,"MCIntegrator",cfg%(ctx.n(4,5),"1,2,3,4,5",ctx.n("1,2","1,2,3")," Emitted"),what="histories replayed in the code")["emits"]
def check_N01(ctx):
    em=nmodel(ctx)
    b=build(ctx,"h_integrator"); r=ctx.rng
    conformance(ctx,b,"TIntegrator",em,name="histories of the model")
    cases=[case(r) for _ in range(ctx.n(2500,40000))]
    res=conformance(ctx,b,"TIntegrator",cases,name="random programs",chunk=8000)
    conformance(ctx,b,"TIntegrator",[long_case(r) for _ in range(ctx.n(24,200))],name="long histories")
    def corrupt(ev):
        for e in reversed(ev):
            if e["op"]=="step" and e["ret"]=="ok" and e["t"]!=[0,0] and e["att"][-1]!=[0,0]: e["t"]=[e["t"][0]+e["t"][1],e["t"][1]]; return ev
    binding_demo(ctx,"TIntegrator",[(c["id"],res[c["id"]]) for c in cases[:80] if res.get(c["id"])],corrupt)
    ctx.assumptions=["every SetEquation is followed by an initial value","scale factors with 0 < minimum <= 1 <= maximum and a safety factor below one","the equation does not change the solver"]
    return finish(ctx)
