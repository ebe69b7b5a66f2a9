"""Q01: peaked integration."""
from core import *
def table(r):
    n=r.choice([1,2,3,5,8,13,30]) if r.random()<.99 else r.choice([101,150,256,300]); k=r.random(); top=r.choice([1,2,5,20,1000])
    if k<.6:
        v=sorted(r.randint(0 if r.random()<.5 else 1,top) for _ in range(n)); m=r.randint(0,n); l=v[::2]; return l+sorted(v[1::2],reverse=True)
    if k<.75: p=r.randint(0,n-1); return [max(0,top-abs(i-p)*r.choice([1,2,3])) for i in range(n)]
    if k<.85: return [top]*n
    return [r.randint(0,top) for _ in range(n)]
def sumop(r):
    f=table(r); n=len(f); lo=r.choice([0,0,-3,r.randint(0,n-1)]); hi=r.choice([n+1,n+1,n+4,r.randint(lo+2,max(lo+2,n+1))])
    ps=[p for p in range(1,n+1) if lo<p<hi]
    if not ps: lo,hi=0,n+1; ps=list(range(1,n+1))
    p=r.choice(ps) if r.random()<.5 else max(ps,key=lambda i:f[i-1])
    cn,cd=r.choice([(0,1),(1,2),(1,4),(1,8),(1,1),(3,4),(1,64),(1,1024)])
    o={"op":"sum","f":f,"lo":lo,"hi":hi,"cn":cn,"cd":cd,"p":p,"hn":r.choice([1,1,3,5]),"hd":r.choice([1,2,4,8]),"xn":r.randint(-40,40)}
    if r.random()<.3 and cn: o["inf"]=1
    if r.random()<.4 and (not lo<1 or "inf" not in o): o["frac"]=1
    if r.random()<.5 and lo>=0 and hi<=n+1 and "inf" not in o: o["out"]=r.choice([1,7,5000])     # large values just outside the limits
    return o
def maxop(r):
    o={"op":"max","r":r.choice([0,6283185,r.randint(0,6283185),r.randint(0,6283185),r.randint(0,6283185)]),"up":r.choice([1,1,2,7]),"dn":r.choice([1,1,3,9]),"shape":r.choice([0,0,1,2]),"tol":r.choice([10000,10000,100000,1000,500000,100,1000000])}
    if r.random()<.5: o["dflt"]=1
    return o
def autoop(r): 
    m=r.randint(500000,5500000); return {"op":"auto","r":m,"w":r.choice([50,200,1000,3000]),"h":r.choice([10,50,100]),"cut":r.choice([1,10,100,500]),"a":m//1000-r.choice([100,1000,5000]),"b":m//1000+r.choice([100,1000,5000])}
def check_Q01(ctx):
    cfg="SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT V = %d\nCONSTANT Cuts = {1,2,3,4}\nINVARIANTS InLimits NeverDown Account Whole Top%s\nPROPERTIES Climb Ends\nCHECK_DEADLOCK FALSE\n"
    model_check(ctx,"MCQuad",cfg%(5,ctx.n(2,3),""),what="every table of 5 values, limits, cut-off and start")
    if not ctx.quick: model_check(ctx,"MCQuad",cfg%(7,2,""),what="every table of 7 values")
    em=model_check(ctx,"MCQuad",cfg.replace("\nPROPERTIES Climb Ends","")%(ctx.n(4,5),2," Emitted"),what="tables replayed in the code")["emits"]
    b=build(ctx,"h_quad"); r=ctx.rng
    for e in em: e.update(hn=1,hd=2,xn=-3,out=9)
    ops=em+[sumop(r) for _ in range(ctx.n(20000,300000))]+[dict(sumop(r),op="zero") for _ in range(20)]
    ops+=[maxop(r) for _ in range(ctx.n(6000,60000))]+[autoop(r) for _ in range(ctx.n(1000,10000))]
    cases=[{"ops":ops[i:i+20]} for i in range(0,len(ops),20)]
    res=conformance(ctx,b,"TQuad",cases,name="integrals")
    def corrupt(ev):
        for e in ev:
            if e["op"]=="sum": e["res"]+=1; return ev
    binding_demo(ctx,"TQuad",[(c["id"],res[c["id"]]) for c in cases[:80] if res.get(c["id"])],corrupt)
    ctx.assumptions=["the function is not negative, the spacing is positive and the starting point lies inside the limits","when both sides are higher, either may be followed"]
    return finish(ctx)
