"""G01-G05: progress, timers, exceptions, images."""
from core import *
import itertools, gen
# ---------------------------------------------------------------- G01
def pcfg(threads,maxn,maxnp,locked,inv):
    return "SPECIFICATION Spec\nCONSTANTS\nThreads = {%s}\nMaxN = %d\nMaxNp = %d\nLocked = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"%(",".join(str(i+1) for i in range(threads)),maxn,maxnp,"TRUE" if locked else "FALSE",inv)
PINV="Refines InOrder NotEarly AtMost Complete GroupsOk"
def check_G01(ctx):
    model_check(ctx,"MCProgress",pcfg(3,ctx.n(3,4),ctx.n(3,5),True,PINV),what="all interleavings of 3 threads, every distribution of the items")
    em=model_check(ctx,"MCProgress",pcfg(1,ctx.n(5,6),ctx.n(6,7),True,PINV+" Emitted"),what="one thread, every order of reports")["emits"]
    # the model sees the race it is there to exclude
    r=tlc(ctx,"MCProgress",pcfg(2,2,2,False,"Refines"))
    if r["rc"]!=12: raise CheckError("the unprotected design was not refuted")
    ctx.extra["unprotected_design_refuted"]=True
    b=build(ctx,"h_progress"); r=ctx.rng
    proj=lambda c,ev:[dict(e,n=c["n"],np=c["np"]) if e["op"]=="run" else e for e in ev]
    def case(n,np,threads,how,mx): return {"n":n,"np":np,"threads":threads,"how":how,"max":mx,"seed":r.randint(1,10**6),"colors":r.randint(0,1),"est":r.randint(0,1)}
    cases=[case(e["n"],e["np"],[e["order"]],"seq",1) for e in em]
    # in order, larger numbers
    for _ in range(ctx.n(150,1500)):
        n=r.choice([1,2,3,5,7,10,11,13,19,30,64,100,r.randint(1,150)]); np=r.choice([0,1,1,2,3,5,7,10,n,n+1,max(1,n-1),r.randint(1,n+5)])
        cases.append(case(n,np,[list(range(1,n+1))],"seq",1))
    conformance(ctx,b,"TProgress",cases,name="one thread",project=proj)
    # very many items: only how a number lies to the ends of the groups matters, so TLC sees groups of 4 (or 5) items instead
    cases=[]; small={}
    thr=lambda q,rem,k:k*q+min(k,rem)
    for _ in range(ctx.n(60,600)):
        np=r.choice([1,2,3,5,7,10]); rem=r.choice([0,0,r.randrange(np)]); q=r.choice([10**6,2**31//np+r.randint(-1,1),2**32//np,2**33,10**12,2**31-1,2**24+1,2**53+1])
        rep=sorted({(k,d) for k in range(1,np+1) for d in (-1,0,1) if r.random()<.6}|{(np,0)})
        if r.random()<.3: r.shuffle(rep)
        c=case(q*np+rem,np,[[thr(q,rem,k)+d for k,d in rep]],"seq",1); c["small"]=1; c["mp"]=[[str(thr(q,rem,k)+d),thr(4,rem,k)+d] for k,d in rep]; c["sn"]=4*np+rem; cases.append(c)
    def projbig(c,ev):
        mp=dict(c["mp"]); return [dict(e,n=c["sn"],np=c["np"],log=[dict(x,i=mp.get(str(x["i"]),-1)) if "i" in x else x for x in e["log"]]) if e["op"]=="run" else e for e in ev]
    conformance(ctx,b,"TProgress",cases,name="very many items",project=projbig)
    # all schedules of small programs
    cases=[]
    for n,np in ((2,1),(2,2),(3,2),(3,3),(4,2),(1,1),(4,4),(5,3)):
        for perm in itertools.permutations(range(1,n+1)):
            for cut in range(1,n):
                if r.random()<(1 if n<=3 else .15): cases.append(case(n,np,[list(perm[:cut]),list(perm[cut:])],"dfs",ctx.n(150,3000)))
    for perm in itertools.permutations(range(1,4)): cases.append(case(3,3,[[x] for x in perm],"dfs",ctx.n(300,5000)))
    res=conformance(ctx,b,"TProgress",cases,name="schedules explored systematically",project=proj)
    ctx.extra["schedules"]=sum(len(v) for v in res.values() if v)
    cases=[]
    for _ in range(ctx.n(120,1500)):
        nt=r.randint(2,5); n=r.randint(nt,20); np=r.choice([1,2,3,n,r.randint(1,n)]); items=list(range(1,n+1))
        k=r.random()
        if k<.4: th=[items[i::nt] for i in range(nt)]
        elif k<.7: th=[items[i*n//nt:(i+1)*n//nt] for i in range(nt)]
        else: r.shuffle(items); th=[items[i::nt] for i in range(nt)]
        cases.append(case(n,np,th,"rnd",ctx.n(12,40)))
    res=conformance(ctx,b,"TProgress",cases,name="random schedules",project=proj)
    def corrupt(ev):
        for e in ev:
            p=[x for x in e["log"] if x["op"]=="print"]
            if len(p)>1: p[0]["k"],p[1]["k"]=p[1]["k"],p[0]["k"]; return ev
    binding_demo(ctx,"TProgress",[(c["id"],proj(c,res[c["id"]])) for c in cases[:50] if res.get(c["id"])],corrupt)
    ctx.assumptions=["switches between threads happen at entries to and exits from critical sections and locks, clock reads, and between reports","item numbers 1..n are reported once each"]
    return finish(ctx)
# ---------------------------------------------------------------- G02, G03
def durs(r,big):
    k=r.random()
    if k<.2: return [0,r.choice([0,1,999,1000,999999,1000000,999999999,r.randint(0,10**9-1)])]
    s=r.choice([0,1,59,60,61,599,3599,3600,3601,86399,86400,86401,172799,172800,24*86400,25*86400,100*86400,r.randint(0,10**5),r.randint(0,10**7)]) if big else r.choice([0,1,59,3600,r.randint(0,5000)])
    return [s,r.choice([0,0,1,999,1000,999999999,999000000,1000000,r.randint(0,10**9-1)])]
def thist(r,n,big):
    ops=[]; live={}; run={}; pure={}
    while len(ops)<n:
        k=r.random(); dead=[t for t in (1,2,3) if t not in live]; lv=list(live)
        if k<.3: ops.append({"op":"adv","d":durs(r,big)}); continue
        if (not lv or k<.36) and dead: t=r.choice(dead); ops.append({"op":"new","t":t}); live[t]=1; run[t]=True; pure[t]=True; continue
        if not lv: continue
        t=r.choice(lv)
        if k<.46: ops.append({"op":"stop","t":t}); pure[t]=pure[t] and not run[t]; run[t]=False
        elif k<.58:
            if run[t]: continue
            ops.append({"op":"cont","t":t}); run[t]=True; pure[t]=False
        elif k<.64: ops.append({"op":"reset","t":t}); run[t]=True; pure[t]=True
        elif k<.68 and len(lv)>1:
            u=r.choice(lv)
            ops.append({"op":"assign","t":t,"t2":u}); run[t]=run[u]; pure[t]=pure[u]
        elif k<.7 and dead: d=r.choice(dead); ops.append({"op":"copy","t":d,"t2":t}); live[d]=1; run[d]=run[t]; pure[d]=pure[t]
        elif k<.72: ops.append({"op":"destroy","t":t}); del live[t]
        elif k<.75 and pure[t]: ops.append({"op":"clock","t":t})
        else: ops.append({"op":"read","t":t})
    return ops
def tmodel(ctx,emit):
    d=ctx.n(6,7)
    cfg="SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Steps = {1,2}\nINVARIANTS Exact Split\nCHECK_DEADLOCK FALSE\n"%d
    model_check(ctx,"MCTimer",cfg,what="every history of length %d of three timers"%d)
    if not emit: return []
    cfg="SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTANT Steps = {1}\nINVARIANTS Exact Split Emitted\nCHECK_DEADLOCK FALSE\n"%5
    return model_check(ctx,"MCTimer",cfg,what="every history of length 5, replayed")["emits"]
def readlast(ops):
    live=set()
    for o in ops:
        if o["op"] in("new","copy"): live.add(o["t"])
        elif o["op"]=="destroy": live.discard(o["t"])
    return ops+[{"op":"adv","d":[1,5]}]+[{"op":"read","t":t} for t in sorted(live)]
def tcorrupt(ev):
    for e in reversed(ev):
        if e["op"]=="read": e["res"]["us"]+=1; return ev
        if e["op"]=="fmt": e["res"]=[x+" " for x in e["res"]]; return ev
def check_G02(ctx):
    em=tmodel(ctx,True); b=build(ctx,"h_timer"); r=ctx.rng
    em=[h for h in em if any(o["op"]=="new" for o in h)]
    if len(em)>ctx.n(15000,60000): em=r.sample(em,ctx.n(15000,60000))
    conformance(ctx,b,"TTimer",[{"ops":readlast(h)} for h in em],name="histories of the model")
    cases=[{"ops":thist(r,r.choice([10,30,60]),r.random()<.5)} for _ in range(ctx.n(1500,20000))]
    res=conformance(ctx,b,"TTimer",cases,name="random histories",chunk=5000)
    binding_demo(ctx,"TTimer",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],tcorrupt)
    ctx.assumptions=["the clock of the C++ library is replaced by one the check controls; continuing a timer that is running is not specified"]
    return finish(ctx)
def check_G03(ctx):
    tmodel(ctx,False); b=build(ctx,"h_timer"); r=ctx.rng
    S=[0,1,9,10,11,59,60,61,599,600,3599,3600,3601,35999,36000,86399,86400,86401,90000,172799,172800,863999,864000,10**6,31536000,10**8]
    MS=[0,1,9,10,99,100,999]
    cases=[]
    for s in S:
        ops=[{"op":"new","t":1}]
        for ns in (0,1,999,1000,999999,1000000,1001000,999000000,999999999): ops+=[{"op":"reset","t":1},{"op":"adv","d":[s,ns]},{"op":"read","t":1},{"op":"stop","t":1},{"op":"adv","d":[7,7]},{"op":"read","t":1}]
        ops+=[{"op":"fmt","s":s,"ms":ms,"unit":u} for ms in MS for u in range(6) if u!=5 or s<2*10**6]
        cases.append({"ops":ops})
    for _ in range(ctx.n(1200,20000)):
        ops=[{"op":"new","t":1}]
        for _ in range(12):
            ops+=[{"op":"adv","d":durs(r,True)},{"op":"read","t":1}]
            k=r.random()
            if k<.3: ops+=[{"op":"stop","t":1},{"op":"adv","d":durs(r,True)},{"op":"cont","t":1}]
            elif k<.5: ops.append({"op":"reset","t":1})
            s=durs(r,True)[0]; u=r.randint(0,5)
            if u==5 and s>2*10**6: u=1
            ops.append({"op":"fmt","s":s,"ms":r.choice(MS+[r.randint(0,999)]),"unit":u})
        cases.append({"ops":ops})
    res=conformance(ctx,b,"TTimer",cases,name="elapsed times",chunk=5000)
    binding_demo(ctx,"TTimer",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],tcorrupt)
    ctx.assumptions=["elapsed times up to about 60 years"]
    return finish(ctx)
# ---------------------------------------------------------------- G06
def check_G06(ctx):
    model_check(ctx,"MCProgressLine","SPECIFICATION Spec\nCONSTANTS MaxN = %d MaxD = %d\nINVARIANTS Exact AtEnd\nCHECK_DEADLOCK FALSE\n"%(ctx.n(6,10),ctx.n(5,9)),what="every number of marks, every constant growth of the stretches: the estimate is exact")
    b=build(ctx,"h_progline"); r=ctx.rng; cases=[]
    def steps(n,kind,est):
        base=r.choice([0,1,7,100,999,1000,1500,9999,10000,60000]); g=r.choice([0,1,3,100,1000]); out=[]
        for i in range(1,n+1):
            ms=base if kind=="const" else base+g*i if kind=="grow" else max(0,base-g*i) if kind=="shrink" else r.choice([0,1,9,10,99,999,1000,1001,9999,10000,59999,60000,r.randint(0,200000)])
            out.append({"op":"report","i":i,"ms":ms,"us":0 if est else r.choice([0,0,1,499,500,999])})
        return out
    for k in range(ctx.n(1200,12000)):
        n=r.choice([1,2,3,4,5,7,10,r.randint(1,24)]); np=r.choice([1,2,3,n,max(1,n-1),r.randint(1,n),n+1,r.randint(1,n)]); est=k%3!=0
        ops=steps(n,r.choice(["const","grow","shrink","any","any"]),est)
        if r.random()<.25: ops=[o for o in ops if r.random()<.7] or ops     # reports left out: marks come late
        if r.random()<.15: ops+=steps(min(3,n),"any",est)
        if r.random()<.1: r.shuffle(ops)
        cases.append({"n":n,"np":np,"colors":r.randint(0,1),"est":int(est),"ops":ops})
    for big in (3600000,86400000,864000000): cases.append({"n":2,"np":2,"colors":0,"est":0,"ops":[{"op":"report","i":1,"ms":big-1,"us":999},{"op":"report","i":2,"ms":0,"us":1}]})
    res=conformance(ctx,b,"TProgressLine",cases,name="lines",chunk=3000)
    def corrupt(ev):
        k=[i for i,e in enumerate(ev) if e["op"]=="report" and e["lines"] and len(e["lines"][0]["times"])==4 and e["lines"][0]["times"][2]!="0ms"]
        if not k: return None
        e=ev[k[0]]; e["lines"][0]["times"][2]="0ms"; return ev
    binding_demo(ctx,"TProgressLine",[(c["id"],res[c["id"]]) for c in cases[:80] if res.get(c["id"])],corrupt)
    ctx.assumptions=["the clock of the C++ library is replaced by one the check controls and stands still during a report; with estimates, stretches are whole milliseconds"]
    return finish(ctx)
# ---------------------------------------------------------------- G04
def C(s): return [ord(c) for c in s] if isinstance(s,str) else list(s)
def mop(r,cls,parts):
    nargs=sum(p["k"]!="lit" for p in parts)
    return {"op":"msg","cls":cls,"verb":int(nargs==0 and cls!="at"),"parts":parts,"file":C(r.choice(["f","conf.txt","a%sb","dir/x y","","%d%n","p"*300])),"line":r.choice([0,1,9,10,12345,r.randint(0,10**6)]),"pos":r.choice([0,1,99,r.randint(0,10**4)])}
def lit(r,n): return [r.choice([37,97,32,58,110,115,100,123,10,37]) for _ in range(n)] if r.random()<.5 else [97+k%26 for k in range(n)]
def check_G04(ctx):
    cfg="SPECIFICATION Spec\nCONSTANT MaxParts = 3\nINVARIANTS Whole Emitted\nCHECK_DEADLOCK FALSE\n"
    em=model_check(ctx,"MCMessages",cfg,what="every mix of up to three parts in every class")["emits"]
    b=build(ctx,"h_except"); r=ctx.rng
    if len(em)>ctx.n(1200,13588): em=r.sample(em,ctx.n(1200,13588))
    def fill(p):
        k=p["k"]
        if k=="lit": return {"k":k,"x":lit(r,p["n"])}
        if k=="s": return {"k":k,"x":[r.choice([37,97,115,200,10,65]) for _ in range(p["n"])]}
        if k=="d": return {"k":k,"x":C(str(r.choice([0,-7,2**31-1,-2**31,r.randint(-10**6,10**6)])))}
        return {"k":"z","x":C(str(r.choice([0,2**64-1,2**63,r.randint(0,10**9)])))}
    cases=[{"ops":[mop(r,e["cls"],[fill(p) for p in e["parts"]])]} for e in em]
    conformance(ctx,b,"TMessages",cases,name="part mixes of the model",chunk=4000)
    cases=[]
    for n in ctx.n(list(range(985,1015))+[1999,2000,2001,4096,10000],list(range(0,1100))+[1999,2000,2001,4095,4096,4097,10000,65536]):
        for cls in ("soft","sfile","conf","at"):
            cases.append({"ops":[mop(r,cls,[fill({"k":"lit","n":n//2}),fill({"k":"s","n":n-n//2})]),mop(r,cls,[fill({"k":"lit","n":n})])]})
    for _ in range(ctx.n(300,5000)):
        ops=[]
        for _ in range(r.randint(1,4)):
            parts=[fill({"k":r.choice(["lit","s","d","z"]),"n":r.choice([0,1,5,20,300,r.randint(0,1500)])}) for _ in range(r.randint(0,5))]
            while sum(p["k"]!="lit" for p in parts)>3: parts.pop()
            ops.append(mop(r,r.choice(["soft","sfile","conf","at"]),parts))
        cases.append({"ops":ops})
    res=conformance(ctx,b,"TMessages",cases,name="lengths and random mixes",chunk=4000)
    def corrupt(ev):
        for e in ev:
            m=e["res"]["msgs"]
            if m and m[-1]: m[-1]=m[-1][:-1]; return ev
    binding_demo(ctx,"TMessages",[(c["id"],res[c["id"]]) for c in cases[:50] if res.get(c["id"])],corrupt)
    ctx.assumptions=["arguments are text without NUL, int and size_t; at most three per message"]
    return finish(ctx)
# ---------------------------------------------------------------- G05
def iop(r,rows,cols,**k):
    m=r.random(); own=m<.5; nc=r.choice([1,2,3,5,9]); e=True
    D=r.choice([1,2,8,64])
    if own:
        a=r.randint(-64,64); w=r.choice([1,2,4,8,16,64,128]); b=a+w
        if r.random()<.25: b=a+r.choice([3,5,10,100,7]); e=False
    else: a,b=0,D
    w=b-a
    def v():
        q=r.random()
        if q<.06: return r.choice([10**9,-10**9])
        if q<.08: return 999999999
        if q<.3: return r.choice([a,b,a+1,b-1,a-1,b+1])
        return r.randint(a-w//4-1,b+w//4+1)
    o={"op":"img","fmt":r.choice(["ppm","png"]),"how":r.choice(["gen","obj"]),"map":"own" if own else r.choice(["gray","geri","default"]),"D":D,"rows":rows,"cols":cols,"vals":[v() for _ in range(rows*cols)],
       "colors":[[r.randint(0,255) for _ in range(3)] for _ in range(nc)] if own else [[0,0,0]],"a":a,"b":b,"exact":e,"file":"ok","ext":r.choice(["inf","huge","big"])}
    if o["map"]=="default": o["how"]="gen"
    o.update(k); return o
def check_G05(ctx):
    cfg="SPECIFICATION Spec\nCONSTANT W = {%s}\nCONSTANT V <- VS\nINVARIANTS Ends InGamut Stops Units GrayMono Emitted\nCHECK_DEADLOCK FALSE\n"%ctx.n("1,3,8,16","1,2,3,5,8,16,40")
    em=model_check(ctx,"MCImage",cfg,what="colour function over small ranges, colour maps and values")["emits"]
    b=build(ctx,"h_image"); r=ctx.rng
    cases=[]
    for e in em:
        for fmt in ("ppm","png"):
            for mp in ("gray","geri","default","own"): cases.append({"ops":[iop(r,e["rows"],e["cols"],fmt=fmt,**({"map":mp,"how":"gen"} if mp=="default" else {"map":mp} if mp!="own" else {}))]})
    for _ in range(ctx.n(500,6000)):
        sz=r.choice([1,2,3,5,8,16,30]); 
        cases.append({"ops":[iop(r,r.randint(1,sz),r.randint(1,sz)) if r.random()<.9 else iop(r,r.choice([1,40]),r.choice([1,30])) for _ in range(r.randint(1,4))]})
    for n in [x for x in gen.sizes(300)+gen.large(300,1100,(512,)) if x>40 and x not in (50,52,59,61,75,77)][::ctx.n(2,1)]+[257]:
        for u,w in ((1,n),(n,1),(n,2)): cases.append({"ops":[iop(r,u,w)]})
    for fmt in ("ppm","png"):
        for how in ("gen","obj"):
            for f in ("no/such/dir/x","/dev/full","."): cases.append({"ops":[iop(r,2,2,fmt=fmt,how=how,file=f,map="gray"),iop(r,2,3,fmt=fmt)]})
    for o in (o for c in cases for o in c["ops"]):
        if o["map"]!="own": o["a"],o["b"],o["exact"]=0,o["D"],True
    res=conformance(ctx,b,"TImage",cases,name="images",chunk=4000)
    def corrupt(ev):
        for e in ev:
            if e["res"].get("px") and e["exact"] and e["vals"][0]!=999999999: e["res"]["px"][0][0]^=4; return ev
    binding_demo(ctx,"TImage",[(c["id"],res[c["id"]]) for c in cases[:80] if res.get(c["id"])],corrupt)
    ctx.assumptions=["values and limits are fractions whose colour is computed without rounding; otherwise a colour may differ by one","images have at least one row and column; not-a-number may have any colour"]
    return finish(ctx)
