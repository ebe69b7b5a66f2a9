"""F01-F04: distribution functions, profiles and the files they are loaded from."""
from core import *
def grid(r,n,lo=None,gaps=(1,2,4)):
    g=[r.randint(-6,6) if lo is None else lo]
    while len(g)<n: g.append(g[-1]+r.choice(gaps))
    return g
def tab(r,log=False,cub=False,np=None,nx=None,negs=True,big=False):
    mn=4 if cub else 2
    np=np or r.choice([mn,mn+1,mn+2,mn+4]); nx=nx or r.choice([mn,mn+1,mn+3])
    if big and r.random()<.04: np,nx=r.choice([(np,r.choice([12,17,33,65])),(r.choice([12,17,33,65]),nx),(14,14)])
    p=grid(r,np,r.randint(0,4)); x=grid(r,nx,r.choice([-8,-4,-3,-2,0]))
    if log: f=[[r.choice([0,1,2,3,5,8,r.randint(0,8)]+([-1,-2] if negs and r.random()<.3 else [])) for _ in p] for _ in x]
    else: f=[[r.choice([0,1,-1,7,r.randint(-40,40)]) for _ in p] for _ in x]
    return {"p":p,"x":x,"f":f,"log":bool(log),"cub":bool(cub)}
def pt(r,g,flip=False):
    """a coordinate: on the grid, between, at or beyond the ends"""
    k=r.random()
    v=r.choice(g) if k<.45 else r.randint(min(g),max(g)) if k<.8 else r.choice([g[0],g[-1],g[0]-1,g[-1]+1,g[0]-5,g[-1]+4])
    return v
def ev2(r,i,T,n):
    out=[]
    for _ in range(n):
        x=pt(r,T["x"])
        if r.random()<.4: x=-x
        out.append({"op":"eval2","id":i,"p":pt(r,T["p"]),"x":x,"how":r.choice(["two","four"])})
    return out
# ------------------------------------------------------------------ F02
def f02_case(r):
    ops=[]; T={}
    for i in range(r.choice([1,2,3])):
        t=tab(r,r.random()<.5,r.random()<.3,big=True); k=r.random()
        if k<.12:
            g=t[r.choice("px")]; j=r.randrange(1,len(g)); q=r.random()
            if q<.4: g[j]=g[j-1]
            elif q<.7: g[j-1],g[j]=g[j],g[j-1]
            else: g.reverse()
        elif k<.16:     # too short to interpolate in
            t["p"]=t["p"][:1]; t["f"]=[row[:1] for row in t["f"]]
        T[i]=t; ops.append(dict(t,op="new2",id=i)); ops+=ev2(r,i,t,r.choice([3,10]))
    nxt=10
    for _ in range(r.choice([2,6,15])):
        i=r.choice(list(T)); k=r.random()
        if k<.2: ops.append({"op":"flip2","id":i,"v":r.random()<.6})
        elif k<.4: ops.append({"op":"clone","id":nxt,"from":i}); T[nxt]=T[i]; nxt+=1
        ops+=ev2(r,i,T[i],4)
    return {"ops":ops}
# ------------------------------------------------------------------ F01
def ev3(r,i,rs,T,n,grid_only=False):
    out=[]
    for _ in range(n):
        t=r.choice(T); k=r.random(); rho=r.choice(rs) if k<.35 else r.randint(min(rs),max(rs)) if k<.7 else r.choice([min(rs)-1,max(rs)+1,min(rs)-4,max(rs)+3,0,r.randint(-10,30)]); ds=r.choice([0,0,1,-2,5])
        p,x=(r.choice(t["p"]),r.choice(t["x"])) if grid_only or r.random()<.5 else (pt(r,t["p"]),pt(r,t["x"]))
        if r.random()<.3: x=-x
        out.append({"op":"eval3","id":i,"r":rho+ds,"ds":ds,"p":p,"x":x,"how":r.choice(["short","long"])})
    return out
def radii(r,n): return grid(r,n,r.choice([0,0,1,4,-3,8]))
def f01_case(r,order=None):
    ops=[]; n=len(order) if order else r.choice([1,1,2,3,3,4,6]) if r.random()<.95 else r.choice([8,9,10,12,16,17,20,33]); rs=radii(r,n); log=r.random()<.3; cub=r.random()<.15
    common=tab(r,log,cub); Ts=[]
    for i in range(n):
        if r.random()<.5: t=tab(r,log and r.random()<.9,cub)
        else: t=dict(common,f=tab(r,log,cub,len(common["p"]),len(common["x"]))["f"])
        Ts.append(t)
    order=order or r.sample(range(n),n); made=[]; N=100
    if r.random()<.25:      # whole grid at once
        f=[dict(common,f=tab(r,log,cub,len(common["p"]),len(common["x"]))["f"]) for _ in range(n)]; Ts=f
        rr=list(rs) if r.random()<.6 else list(reversed(rs)); bad=r.random()
        if bad<.1 and n>1: j=r.randrange(1,n); rr[j]=rr[j-1]
        elif bad<.2 and n>2: rr[-1],rr[-2]=rr[-2],rr[-1]
        if rr!=rs: Ts=list(reversed(f)) if rr==rs[::-1] else f
        ops.append({"op":"init3","id":0,"r":rr,"p":common["p"],"x":common["x"],"f":[t["f"] for t in f],"log":log,"cub":cub,"alloc":r.random()<.5})
        have=rs
        ops+=ev3(r,0,rs,Ts,8,cub)
        if r.random()<.4:
            q=rs[-1]+r.choice([1,2,4]) if r.random()<.5 else rs[0]-r.choice([1,2,4]); t=dict(common)
            ops.append(dict(t,op="ins3",id=0,r=q,obj=-1,alloc=False)); rs=sorted(rs+[q]); Ts=Ts+[t]; ops+=ev3(r,0,rs,Ts,5,cub)
    else:
        ops.append({"op":"new3","id":0}); have=[]; HT=[]
        for k in order:
            t=Ts[k]
            if r.random()<.2:
                ops.append(dict(t,op="new2",id=N)); 
                ops.append(dict(t,op="ins3",id=0,r=rs[k],obj=N,alloc=False)); N+=1
                if t["log"] and any(v<-1 for row in t["f"] for v in row): t=None
            else: ops.append(dict(t,op="ins3",id=0,r=rs[k],obj=-1,alloc=r.random()<.5))
            if t: have.append(rs[k]); HT.append(t)
            if have and r.random()<.5: ops+=ev3(r,0,have,HT,2,cub)
        if not have: return f01_case(r)
        rs,Ts=have,HT
    ids=[0]; nxt=1
    for _ in range(r.choice([3,8,20])):
        i=r.choice(ids); k=r.random()
        if k<.15: ops.append({"op":"ext","id":i,"v":r.random()<.4})
        elif k<.25: ops.append({"op":"flip3","id":i,"v":r.random()<.6})
        elif k<.4: ops.append({"op":"clone","id":nxt,"from":i}); ids.append(nxt); nxt+=1
        ops+=ev3(r,i,rs,Ts,3,cub)
    return {"ops":ops}
# ------------------------------------------------------------------ F03
def f03_case(r):
    ops=[]; P={}; M={}; D={}; nxt=0
    def prof():
        nonlocal nxt
        k=r.choice(["linear","linear","power","power","gauss","bessel","uniform"]); a=r.randint(-4,12); w=r.choice([1,2,4,8,16])
        if r.random()<.08: w=r.choice([0,-1,-4])
        if k=="power": w=min(w,4) if w>0 else w
        g=[r.randint(1,8),r.randint(1,12),r.choice([1,2,4,8])]
        if k=="gauss" and r.random()<.1: g[r.randrange(3)]=r.choice([0,-1])
        o={"op":"prof","id":nxt,"kind":k,"a":a,"b":a+w,"e":r.choice(["1","2","3","0.5","0"]) if k=="power" else "1","g":g}; P[nxt]=o; ops.append(o); nxt+=1
    def evp(i):
        o=P[i]; a,b=o["a"],o["b"]; k=r.random(); rho=r.choice([a,b,a-1,b-1,b+1,a+1]) if k<.4 else r.randint(a,max(a,b)) if k<.9 else r.randint(-30,60); ds=r.choice([0,0,3,-5])
        ops.append({"op":"evalp","id":i,"kind":o["kind"],"r":rho+ds,"ds":ds,"c":o["g"][2],"ga":o["g"][0]})
    for _ in range(r.choice([1,2,4])): prof()
    for _ in range(r.choice([1,2])):
        if r.random()<.3: ops.append({"op":"unit","id":nxt}); M[nxt]={"p":[0,8],"x":[-4,4]}
        else: t=tab(r,r.random()<.2,False); ops.append(dict(t,op="new2",id=nxt)); M[nxt]=t
        nxt+=1
    for _ in range(r.choice([6,15,30])):
        k=r.random()
        if k<.45: evp(r.choice(list(P)))
        elif k<.55: i=r.choice(list(P)); ops.append({"op":"clone","id":nxt,"from":i}); P[nxt]=P[i]; nxt+=1; evp(nxt-1)
        elif k<.7:
            m=r.choice(list(M)); p=r.choice([-1]+list(P)); ops.append({"op":"prod","id":nxt,"m":m,"p":p,"how":r.choice(["to","ctor","init"])}); D[nxt]=(p,m); nxt+=1
        elif k<.76 and D: i=r.choice(list(D)); ops.append({"op":"clone","id":nxt,"from":i}); D[nxt]=D[i]; nxt+=1
        elif k<.8:
            m=r.choice(list(M))
            if "f" in M[m]: ops.append({"op":"flip2","id":m,"v":r.random()<.6})
        elif D:
            i=r.choice(list(D)); p,m=D[i]; t=M[m]
            a,b=(P[p]["a"],P[p]["b"]) if p>=0 else (0,8)
            rho=r.choice([a,a,b,a-1,b-1,a+1,r.randint(min(a,b),max(a,b))])
            if p>=0 and P[p]["kind"]=="gauss" and r.random()<.6: rho=P[p]["g"][1]
            ds=r.choice([0,0,2,-3]); x=pt(r,t["x"])
            ops.append({"op":"eval3","id":i,"r":rho+ds,"ds":ds,"p":pt(r,t["p"]),"x":-x if r.random()<.3 else x,"how":r.choice(["short","long"])})
    return {"ops":ops}
# ------------------------------------------------------------------ F04
def var(n,d,v,u="1"): return {"n":n,"d":d,"v":v,"u":u}
def vec1(r,n,v,u,mat=False):
    if mat: return var(n,[2,2],(v*4)[:4],u)
    k=r.random(); L=len(v)
    return var(n,[L],v,u) if k<.4 else var(n,[1,L],v,u) if k<.7 else var(n,[L,1],v,u)
def fval(log,x): return x if not log else 0 if x==-1 else -1 if x<-1 else 2**x
def drop(r,vars_,names):
    n=r.choice(names); return [v for v in vars_ if v["n"]!=n],n
def chk(r,rows,log): return [[fval(log,v) for v in row] for row in rows]
Q="0.25"
def soft_case(r):
    log=r.random()<.4; cub=r.random()<.2; n=r.choice([1,2,3,4]) if r.random()<.95 else r.choice([11,12,23]); rs=grid(r,n,r.choice([0,1,3])); ax=r.choice([0,0,r.randint(1,20),r.randint(1,20)]); rad=r.choice([-1,-1,-1,0,r.randrange(n),n,n+2]); parts=[]; vs=[]; gs=[]; bad=r.random()
    t0=tab(r,log,cub)
    if bad<.08 and n>1: rs[1]=rs[0] if r.random()<.5 else rs[0]-1
    for i in range(n):
        t=tab(r,log,cub); parts.append({"p":t["p"],"x":t["x"],"f":t["f"],"mat":False})
    if .08<bad<.2:
        q=r.choice(parts); k=r.choice(["rows","cols","more","wide","swap","grid","mat"])
        if k=="rows": q["f"]=q["f"][:-1]
        elif k=="cols": q["f"]=[x[:-1] for x in q["f"]]
        elif k=="more": q["f"]=q["f"]+[q["f"][-1]]
        elif k=="wide": q["f"]=[x+[x[-1]] for x in q["f"]]
        elif k=="swap": q["f"]=[list(z) for z in zip(*q["f"])]
        elif k=="grid": g=q[r.choice("px")]; g[-1]=g[-2] if r.random()<.5 else g[0]-1
        else: q["mat"]=True
    typ=r.choice(["","","distribution/soft","distribution/soft"])
    if .2<bad<.26: typ=r.choice(["distribution/gocode","soft","distribution/soft2"])
    vs.append(vec1(r,"r",rs,Q))
    if typ: vs.append({"n":"type","s":typ})
    for i,q in enumerate(parts):
        gs.append("r%d"%i); g="r%d/"%i
        vs+=[vec1(r,g+"p",q["p"],Q,q["mat"]),vec1(r,g+"x",q["x"],Q)]; vs[-1]["n"]=g+"xi"; F=chk(r,q["f"],log); vs.append(var(g+"f",[len(F),len(F[0]) if F else 0],[v for x in F for v in x]))
    miss=""
    if .26<bad<.32: vs,miss=drop(r,vs,["r","r0/p","r0/xi","r%d/f"%(n-1)])
    c={"r":rs,"parts":parts,"type":typ,"miss":miss}
    return {"op":"load","id":0,"lay":"soft","c":c,"file":{"ext":"h5","groups":gs,"vars":vs},"log":log,"cub":cub,"rad":rad,"ax":ax,"w":16},parts,[x+ax for x in rs],rad
def block_case(r,lay):
    log=r.random()<.4; cub=r.random()<.2; n=r.choice([1,2,3,4]); rs=grid(r,n,r.choice([0,1,3])); ax=r.randint(1,20); rad=r.choice([-1,-1,-1,0,r.randrange(n),n,n+1]); bad=r.random(); t=tab(r,log,cub); miss=badk=""
    f=[tab(r,log,cub,len(t["p"]),len(t["x"]))["f"] for _ in range(n)]
    if bad<.06 and n>2: rs[1]=rs[2]+1
    elif bad<.12 and n>1: rs[1]=rs[0]
    elif bad<.18: g=t[r.choice("px")]; g[-1]=g[-2] if r.random()<.5 else g[0]-1
    elif bad<.24: f=f[:-1] if r.random()<.5 and n>1 else f+[f[0]]
    elif bad<.30: k=r.choice([0,1,2,3]); f=[x[:-1] for x in f] if k==0 else [[y[:-1] for y in x] for x in f] if k==1 else [x+[x[-1]] for x in f] if k==2 else [[y+[y[-1]] for y in x] for x in f]
    F=[v for x in f for y in chk(r,x,log) for v in y]; d=[len(f),len(f[0]),len(f[0][0])]
    mat=.30<bad<.34
    if mat: badk="mat"
    if lay=="luke":
        beta=r.choice(["0.5","0.25","1","2"]); k={"0.5":"0.5","0.25":"1","1":"0.25","2":"0.125"}[beta]
        vs=[vec1(r,"xrhoG",rs,"0.0625"),vec1(r,"pn",t["p"],k,mat),vec1(r,"mhu",t["x"],Q),var("betath_ref",[1,1],[1],beta)]
        if .34<bad<.38: vs[-1]=var("betath_ref",[1,2],[1,1],beta); badk="beta"
        if .38<bad<.42: vs.append(var("f",[d[0],d[1]*d[2]],F)); badk="dims"
        else: vs.append(var("f",d,F))
        if .42<bad<.48: vs,miss=drop(r,vs,["xrhoG","pn","mhu","f","betath_ref"])
        if rs and (max(rs)>16): return block_case(r,lay)
    else:
        u=r.choice(["normalized","normalized","ev","si"]); unit={"normalized":1.0,"ev":ELMEV,"si":ELM*CLIGHT}[u]
        vs=[vec1(r,"r",rs,Q),vec1(r,"p",t["p"],repr(0.25*unit),mat),vec1(r,"xi",t["x"],Q),{"n":"punits","s":u}]
        sh=r.choice([[d[0],d[1]*d[2]],[1,len(F)],[len(F),1]]); vs.append(var("f",sh,F))
        if r.random()<.4:
            nm,stp,L=r.choice([("fp0",1,d[2]),("fxi0",d[2],d[1]),("fr0",d[1]*d[2],d[0])]); v=[F[k*stp] for k in range(L)][:r.randint(1,L)]
            if r.random()<.3: j=r.randrange(len(v)); v[j]+=1; badk="verify"
            vs.append(vec1(r,nm,v,"1"))
        if .34<bad<.38:
            for v in vs:
                if v["n"]=="punits": v["s"]="mev"
            badk="units"
        if .42<bad<.48: vs,miss=drop(r,vs,["r","p","xi","f","punits"])
    c={"r":rs,"p":t["p"],"x":t["x"],"f":f,"miss":miss,"bad":badk}
    o={"op":"load","id":0,"lay":lay,"c":c,"file":{"ext":"h5" if lay=="luke" or r.random()<.6 else "sdt","groups":[],"vars":vs},"log":log,"cub":cub,"rad":rad,"ax":ax,"w":16}
    if lay=="depr" and u!="normalized": o["inner"]=True
    return o,[t],[x+(ax if lay=="luke" else 0) for x in rs],rad
def dream_case(r):
    log=r.random()<.4; cub=r.random()<.2; n=r.choice([1,2,3]); nt=r.choice([1,2,3]); rs=grid(r,n,r.choice([0,1,3])); ax=r.choice([0,0,r.randint(1,20),r.randint(1,20)]); bad=r.random(); t=tab(r,log,cub); miss=""
    f=[[tab(r,log,cub,len(t["p"]),len(t["x"]))["f"] for _ in range(n)] for _ in range(nt)]; ntv=nt
    time=r.choice([-1,-1,0,r.randrange(nt),-nt,-r.randint(1,nt),nt,nt+1,-nt-1,-nt-3])
    if bad<.06 and n>1: rs[1]=rs[0]
    elif bad<.12: g=t[r.choice("px")]; g[-1]=g[-2] if r.random()<.5 else g[0]-1
    elif bad<.18: f=[[y[:-1] for y in x] for x in f] if r.random()<.5 else [x+[x[0]] for x in f]
    elif bad<.24: k=r.choice([0,1,2]); f=[[[z[:-1] if k==0 else z+[z[-1]] for z in (y if k<2 else y+[y[-1]])] if k<2 else y+[y[-1]] for y in x] for x in f]
    elif bad<.30: ntv=nt+r.choice([1,-1]) if nt>1 else nt+1
    F=[v for a in f for x in a for y in chk(r,x,log) for v in y]; d=[len(f),len(f[0]),len(f[0][0]),len(f[0][0][0])]
    which=r.choice(["f_re","f_hot"]); g={"f_re":"runaway","f_hot":"hottail"}[which]; both=r.random()<.3; other={"f_re":"f_hot","f_hot":"f_re"}[which]; og={"f_re":"hottail","f_hot":"runaway"}[which]
    vs=[var("/grid/t",[ntv],list(range(ntv))),var("/grid/r",[n],rs,Q),var("/grid/%s/p1"%g,[len(t["p"])],t["p"],Q),var("/grid/%s/p2"%g,[len(t["x"])],t["x"],Q),var("/eqsys/"+which,d,F)]
    gs=["grid","eqsys","grid/"+g]; ask=r.choice(["",which,"/eqsys/"+which]); found=True
    if both:    # the other distribution, with its own grid, holds something else
        gs.append("grid/"+og); vs+=[var("/grid/%s/p1"%og,[2],[1,2]),var("/grid/%s/p2"%og,[2],[1,2]),var("/eqsys/"+other,[nt,n,2,2],[77]*(nt*n*4))]
        if ask=="" and which=="f_hot": ask=which
    if .30<bad<.36 : ask=r.choice(["f_"+"xx","/eqsys/none"]); found=False
    if .36<bad<.42: vs,miss=drop(r,vs,["/grid/t","/grid/r","/grid/%s/p1"%g,"/grid/%s/p2"%g,"/eqsys/"+which]); 
    if miss=="/eqsys/"+which and both and ask=="": ask=which
    c={"r":rs,"p":t["p"],"x":t["x"],"f":f,"nt":ntv,"miss":miss}
    return {"op":"load","id":0,"lay":"dream","c":c,"file":{"ext":"h5","groups":gs,"vars":vs},"log":log,"cub":cub,"rad":-1,"time":time,"dist":ask,"found":found,"ax":ax,"w":16},[t],[x+ax for x in rs],-1
def code_content(r,pre,nt=None):
    np=r.choice([2,3,5,8]); nleg=r.choice([1,2,3,4,4,4,5,7,8,13]); p=grid(r,np,r.randint(0,4)); nt=nt or r.choice([1,2,3]); f=[[r.choice([0,1,4,r.randint(-9,20)])+(20 if k<np else 0) for k in range(np*nleg)] for _ in range(nt)]
    return {"p":p,"nleg":nleg,"f":f,"miss":""}
def code_vars(r,c,pre,norm):
    dl=r.choice(["0.5","0.25","1"]); u={"0.5":"0.5","0.25":"1","1":"0.25"}[dl]
    vs=[vec1(r,pre+"y",c["p"],u),var(pre+"delta",[1,1],[1],dl),var(pre+"Nxi",[1,1],[c["nleg"]]),var(pre+"f",[len(c["f"]),len(c["f"][0])],[v for x in c["f"] for v in x])]
    if norm[0]!="1": vs.append(var(pre+"nref",[1,1],[1],norm[0]))
    if norm[1]!="1": vs.append(var(pre+"Tref",[1,1],[1],norm[1]))
    return vs
ITS=["linear"]*6+["cspline","akima","steffen","poly"]
def code_case(r):
    it=r.choice(ITS+["none"]*(r.random()<.3)); c=code_content(r,""); bad=r.random(); nt=len(c["f"]); norm=[r.choice(["1","2","3e19"]),r.choice(["1","4","100"])]
    time=r.choice([-1,-1,0,r.randrange(nt),-nt,nt,nt+1,-nt-1])
    path=r.choice(["","","sub","sub/"]); pre="" if not path else "sub/"
    if bad<.06: k=r.choice([0,1,2]); c["f"]=[x[:-1] if k==0 else x+[1]*(k if k==1 else len(c["p"])) for x in c["f"]]
    elif bad<.12: g=c["p"]; g[-1]=g[-2] if r.random()<.5 else g[0]-1
    vs=code_vars(r,c,pre,norm)
    if .12<bad<.2: vs,c["miss"]=drop(r,vs,[pre+x for x in ("y","delta","Nxi","f")])
    ops=[{"op":"load","id":0,"lay":"code","c":c,"file":{"ext":"h5" if path or r.random()<.6 else "sdt","groups":["sub"] if path else [],"vars":vs},"log":False,"cub":False,"it":it,"rad":-1,"time":time,"how":r.choice(["file","sfile"]),"path":path,"nref":norm[0],"tref":norm[1],"ax":4,"w":16}]
    T={"p":c["p"],"x":[-4,-2,0,2,4]}
    for _ in range(10): ops.append({"op":"eval2","id":r.choice([0,0,0,1]),"p":pt(r,c["p"]),"x":r.choice(T["x"]),"how":r.choice(["two","four"])})
    ops.insert(3,{"op":"clone","id":1,"from":0})
    lg=r.random()<.5
    ops.append({"op":"togrid","id":2,"from":r.choice([0,1]),"log":lg,"theta":r.random()<.4,"n":r.choice([5,5,5,2,3,9,8])})
    for _ in range(8): ops.append({"op":"eval2","id":r.choice([2,2,0]),"p":r.choice(c["p"]) if r.random()<.8 else pt(r,c["p"]),"x":r.choice([-4,-2,0,2,4]),"how":"two"})
    return {"ops":ops}
def gocode_case(r):
    it=r.choice(ITS)
    n=r.choice([1,2,2,3,4]); nt=r.choice([1,2,3])
    if r.random()<.05: n,nt=r.choice([(12,1),(1,12),(2,11)])
    rs=grid(r,n,r.choice([0,1,3])); ax=r.randint(0,20)-(0 if r.random()<.8 else 3); norm=[r.choice(["1","2","3e19"]),r.choice(["1","4"])]; bad=r.random()
    sl=[[code_content(r,"",1) for _ in range(n)] for _ in range(nt)]; ntv=nt
    time=r.choice([-1,-1,0,r.randrange(nt),-nt,nt-1,nt,nt+1,-nt-1]); typ=r.choice(["","distribution/gocode"])
    if bad<.06 and n>1: rs[1]=rs[0]
    elif bad<.1: typ="distribution/soft"
    elif bad<.16: q=r.choice(r.choice(sl)); k=r.choice([0,1,2]); q["f"]=[x[:-1] if k==0 else x+[1]*(k if k==1 else len(q["p"])) for x in q["f"]]
    elif bad<.24: ntv=nt+r.choice([1,-1]) if nt>1 else nt+1
    gs=[]; vs=[vec1(r,"r",rs,Q),var("nt",[1,1] if r.random()<.5 else [1],[ntv])]
    if typ: vs.append({"n":"type","s":typ})
    for k in range(nt):
        gs.append("t%d"%k)
        for i in range(n): gs.append("t%d/r%d"%(k,i)); vs+=code_vars(r,sl[k][i],"t%d/r%d/"%(k,i),norm)
    miss=""
    if .24<bad<.28: vs,miss=drop(r,vs,["r","nt"])
    c={"r":rs,"slices":sl,"nt":ntv,"type":typ,"miss":miss}
    ops=[{"op":"load","id":0,"lay":"gocode","c":c,"file":{"ext":"h5","groups":gs,"vars":vs},"log":False,"cub":False,"it":it,"rad":-1,"time":time,"nref":norm[0],"tref":norm[1],"ax":ax,"w":16}]
    R=[x+ax for x in rs]; T=[dict(q,x=[-4,-2,0,2,4]) for s in sl for q in s]
    def e(i,k):
        z=ev3(r,i,R,T,k)
        for o in z: o["x"]=r.choice([-4,-2,0,2,4])
        return z
    ops+=e(0,6)+[{"op":"clone","id":1,"from":0}]+e(1,4)+e(0,3)
    return {"ops":ops}
ELM=9.10938356e-31; CLIGHT=299792458.0; ELMEV=0.5109989461e6
def f04_case(r):
    k=r.choice(["soft","soft","luke","depr","dream","dream","code","code","gocode","gocode"])
    if k=="code": return code_case(r)
    if k=="gocode": return gocode_case(r)
    o,Ts,R,rad=soft_case(r) if k=="soft" else dream_case(r) if k=="dream" else block_case(r,k)
    ops=[o]
    if rad>=0:
        t=Ts[rad] if k=="soft" and rad<len(Ts) else Ts[0]; q=ev2(r,0,t,8)+[{"op":"clone","id":1,"from":0}]+ev2(r,1,t,3)
    else:
        q=ev3(r,0,R,Ts,8,True)+[{"op":"clone","id":1,"from":0}]+ev3(r,1,R,Ts,4,r.random()<.5)
        if k=="dream": q+=[{"op":"clone","id":2,"from":0},{"op":"del","id":0}]
    inner=o.pop("inner",False)
    if inner:    # units are converted inexactly: keep off the ends of the momentum grid
        ps=Ts[0]["p"]; q=[e for e in q if "p" not in e or (min(ps)<e["p"]<max(ps))] 
    return {"ops":ops+q,"inner":True} if inner else {"ops":ops+q}
def collect(o,key,out):
    if isinstance(o,dict):
        for k,v in o.items():
            if k==key and isinstance(v,list): out+=[x for x in v if isinstance(x,int)]
            elif k==key and isinstance(v,int): out.append(v)
            elif k!="file": collect(v,key,out)
    elif isinstance(o,list):
        for v in o: collect(v,key,out)
    return out
def agreeing(r,c):
    """compare objects with their clones, and other pairs, at points on and off the grids"""
    ops=c["ops"]; lim={}
    for k in "rpx":
        v=collect(ops,k,[]) or [0]; lim[k]=(8*min(v)-8,8*max(v)+8)
    def pts(n=10):
        z=[]
        for _ in range(n):
            ds=r.choice([0,0,8,r.randint(-16,16)]); z.append([r.randint(*lim["r"])+ds,r.randint(*lim["p"]),r.randint(*lim["x"]),ds])
        return z
    out=[]; pairs=[]
    for o in ops:
        out.append(o)
        if o["op"]=="clone":
            pairs.append((o["id"],o["from"])); out.append({"op":"agree","id":o["id"],"from":o["from"],"pts":pts()})
        elif pairs and r.random()<.08: a,b=r.choice(pairs); out.append({"op":"agree","id":b,"from":a,"pts":pts(5)})
    if pairs: a,b=r.choice(pairs); out.append({"op":"agree","id":a,"from":b,"pts":pts()})
    c["ops"]=out
def slim(c,ev):
    for e in ev: e.pop("pts",None)
    for e in ev: e.pop("file",None)
    return ev
def bump(ev):
    for e in reversed(ev):
        if e.get("ret")=="num" and e["op"].startswith("eval"): e["val"]+=1; return ev
def go(ctx,gen,nq,nt,extra=()):
    r0=model_check(ctx,"MCDist","SPECIFICATION Spec\nCONSTANTS MaxRadii = %d\nCONSTANTS Vals = {0, 1}\nINVARIANTS Sorted SameSet Stored Between TableLaws Emit\nCHECK_DEADLOCK FALSE\n"%ctx.n(4,5),what="interpolation laws; every order of insertion")
    b=build(ctx,"h_dist"); r=ctx.rng
    orders=sorted({tuple(x) for x in r0["emits"]})
    cases=[]
    if gen is f01_case:
        for o in orders:
            m=sorted(o); o=[m.index(k) for k in o]
            for _ in range(2): cases.append(f01_case(r,o))
    cases+=[gen(r) for _ in range(ctx.n(nq,nt))]
    fine="1.0000000894069671630859375"; quarter="0.250000022351741790771484375"     # need more digits than single precision has
    for c in cases:
        agreeing(r,c)
        if r.random()<.5: c["unit"]=r.choice([fine,fine,"0.1","3e-7"])
        if r.random()<.4 and not c.pop("inner",False):
            c["scale"]=quarter
            if gen is not f04_case: c["xscale"]=quarter
    res=conformance(ctx,b,"TDist",cases,name="programs",project=slim,chunk=3000)
    binding_demo(ctx,"TDist",[(c["id"],slim(c,res[c["id"]])) for c in cases[:60] if res.get(c["id"])],bump)
    ctx.assumptions=["grid points a power of two apart so that every interpolated value is exact; between grid points only linear interpolation is constrained"]
    return finish(ctx)
def check_F01(ctx): return go(ctx,f01_case,2500,12000)
def check_F02(ctx): return go(ctx,f02_case,3000,15000)
def check_F03(ctx): return go(ctx,f03_case,4000,15000)
def check_F04(ctx): return go(ctx,f04_case,4000,12000)

# ------------------------------------------------------------------ A01
import math
from fractions import Fraction as Fr
def fr(x): x=Fr(x); return [x.numerator,x.denominator]
PYT=[Fr(3,4),Fr(4,3),Fr(5,12),Fr(12,5),Fr(7,24),Fr(24,7)]
def gam(p): return Fr(int(round(math.sqrt(p.numerator**2+p.denominator**2))),p.denominator)
def a01_model(r,k):
    o={"kind":k,"C":fr(Fr(r.randint(-12,12),r.choice([1,2,4]))),"pm":fr(r.choice([0,1,2,Fr(3,4)])),"w":fr(r.choice([0,0,1,2,Fr(1,2)])),"L":fr(r.choice([1,2,10,15,Fr(5,2)])),"how":r.choice(["ctor","init"]),"how2":r.choice(["short","full"])}
    if r.random()<.3: o["pm"]=o["w"]=fr(0)
    Z=r.choice([4,Fr(5,4),11,20,4,Fr(4,9)]); g=gam(r.choice(PYT)); n=r.choice([1,2,3,4,5,8,12,16,20,30]); E=Fr(n)*(Z+1)/(2*g)-1
    if k=="connor": Z=r.choice([0,1,2,Fr(1,2),4]); E=Fr(r.randint(0,24),r.choice([1,2,4]))
    o["E"]=fr(E); o["Z"]=fr(Z); return o
def a01_point(r,m):
    xi=r.choice([1,-1,Fr(1,2),Fr(-1,2),Fr(3,4),Fr(-1,4),Fr(1,5),Fr(9,10)])
    if m["kind"]!="connor" and r.random()<.15: xi=Fr(0)
    p=r.choice(PYT) if m["kind"]=="aval" else r.choice([Fr(1,2),1,2,3,Fr(3,4),5,Fr(7,2)])
    return {"p":fr(p),"xi":fr(xi)}
def a01_case(r):
    ops=[]; M={}; nxt=0
    for _ in range(r.choice([1,2,3])):
        m=a01_model(r,r.choice(["exp","connor","connor","aval","aval","aval"])); ops.append(dict(m,op="new",id=nxt)); M[nxt]=m; nxt+=1
    for _ in range(r.choice([8,20])):
        i=r.choice(list(M)); m=M[i]; k=r.random()
        if k<.08: ops.append({"op":"clone","id":i,"to":nxt,"base":r.randint(0,1)}); M[nxt]=m; nxt+=1
        elif k<.16: n=a01_model(r,m["kind"]); ops.append(dict(n,op="init",id=i)); M[i]=n
        elif k<.18: ops.append({"op":"del","id":i})
        else:
            q=a01_point(r,m)
            if m["kind"]=="aval" and r.random()<.6:      # a momentum for which 2A is whole
                g=[p for p in PYT if ((Fr(*m["E"])+1)/(Fr(*m["Z"])+1)*gam(p)*2).denominator==1]
                if g: q["p"]=fr(r.choice(g))
            ops.append(dict(q,op="eval",id=i,how=r.choice(["two","three","four"])))
    return {"ops":ops}
def spoilA(ev):
    for e in reversed(ev):
        if e["op"]=="eval" and e["ret"]=="ok": e["val"]+=500; e["mirror"]+=500; e["top"]+=1000; return ev
def check_A01(ctx):
    model_check(ctx,"MCClosed","SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS Additive Bounded Falling Even Decay Cut Energy\nCHECK_DEADLOCK FALSE\n"%ctx.n(16,40),what="laws of the logarithm tables (Additive, Bounded), pitch symmetry and decay, continuity of the cut-off")
    b=build(ctx,"h_closed"); r=ctx.rng
    cases=[a01_case(r) for _ in range(ctx.n(3000,40000))]
    res=conformance(ctx,b,"TClosed",cases,name="parameters, points and histories",chunk=3000)
    binding_demo(ctx,"TClosed",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],spoilA)
    ctx.assumptions=["rational parameters and points whose Lorentz factor and sqrt(Zeff+5) are rational; absolute values of the avalanche form where 2A is whole and the prefactor has prime factors up to 13, elsewhere ratios between pitches; to about 1e-5"]
    return finish(ctx)
