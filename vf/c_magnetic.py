"""M01: numeric magnetic fields, through evaluation, files and copies."""
from core import *
import copy
TRIP=[(3,4,5),(4,3,5),(5,12,13),(12,5,13),(6,8,10),(8,6,10),(8,15,17),(9,12,15),(12,16,20),(15,20,25),(7,24,25)]
def grid(r,n,lo,gaps=(1,2,3)):
    g=[lo]
    while len(g)<n: g.append(g[-1]+r.choice(gaps))
    return g
def table(r,R,Z,lin):
    if lin:
        a,b,c=[r.randint(-3,3) for _ in range(3)]; d=r.choice([0,0,1,-1])
        return [[a+b*x+c*z+d*x*z for x in R] for z in Z]
    return [[r.choice([0,1,-1,r.randint(-99,99)]) for x in R] for z in Z]
def polygon(r,ax,R,Z):
    """a closed curve around the axis whose crossings of the axis level are multiples of 1/840"""
    w=r.choice([1,2,3]); h=r.choice([1,2,3]); k=r.random(); x,z=ax
    if k<.35: P=[[x-w,z-h],[x+w,z-h],[x+w,z+h],[x-w,z+h]]
    elif k<.6: P=[[x-w,z],[x,z-h],[x+r.choice([1,2,4]),z],[x,z+h]]
    else: P=[[x-w,z-r.randint(1,4)],[x+r.randint(0,2),z-r.randint(1,4)],[x+w+1,z+r.randint(1,4)],[x-r.randint(0,2),z+r.randint(1,3)]]
    if r.random()<.4: P.append(list(P[0]))
    if r.random()<.3: P.reverse()
    return P
def field(r,lin=None,both=None):
    n=r.choice([4,4,5,6,8]); m=r.choice([n,4,5,7]); R=grid(r,n,r.choice([1,2,3,4,5,0]),r.choice([(1,),(1,2,3),(1,2,4)])); Z=grid(r,m,r.choice([-6,-4,-2,0,1]),r.choice([(1,),(1,2,3)]))
    ax=[r.choice(R[1:-1]),r.choice(Z[1:-1])]; lin=r.random()<.55 if lin is None else lin
    k=r.random()
    return {"name":r.choice(["f","Field no 1","a b  c","x%s","JET #1234"]),"desc":r.choice(["d","some 100% field","multi word text","%n"]),"axis":ax,"R":R,"Z":Z,
        "br":table(r,R,Z,lin),"bp":table(r,R,Z,lin or r.random()<.2),"bz":table(r,R,Z,lin),"psi":table(r,R,Z,lin) if r.random()<.55 else [],
        "sep":polygon(r,ax,R,Z) if k<.65 else [],"wall":polygon(r,ax,R,Z) if k>.3 else []}
def pt(r,f):
    """a point (x,y,z) with a whole distance r from the axis of symmetry: on the grid, between, or outside"""
    R,Z=f["R"],f["Z"]; k=r.random(); z=r.choice(Z) if k<.5 else r.randint(Z[0],Z[-1]) if k<.8 else r.choice([Z[0]-1,Z[-1]+1,Z[0]-7,Z[-1]+5])
    k=r.random()
    if k<.35:
        x=r.choice(R) if r.random()<.6 else r.randint(R[0],R[-1]) if r.random()<.6 else r.choice([max(R[0]-1,0),R[-1]+1,0,R[-1]*2+3])
        a=r.choice([(1,0),(0,1),(-1,0),(0,-1)]); return {"x":a[0]*x,"y":a[1]*x,"z":z,"r":x}
    c=[t for t in TRIP if R[0]<=t[2]<=R[-1]] if r.random()<.75 else TRIP
    t=r.choice(c or TRIP); return {"x":t[0]*r.choice([1,-1]),"y":t[1]*r.choice([1,-1]),"z":z,"r":t[2]}
def looks(r,i,f,n):
    out=[]
    for _ in range(n):
        op=r.choice(["eval","eval","der","der","flux","dflux"]); q=pt(r,f)
        if op!="eval" and op!="der" or q["r"]<=17 or op=="eval": out.append(dict(q,op=op,id=i,how=r.choice(["three","three","arr","vec"])))
    return out
def between(r,g,out=True):
    k=r.random()
    return "%.6f"%(r.uniform(g[0],g[-1]) if k<.8 or not out else r.choice([g[0],g[-1],g[0]-r.random(),g[-1]+3*r.random()]))
def compare(r,i,j,f):
    a=r.uniform(0,6.3); R=float(between(r,f["R"])); import math
    return {"op":"cmp","id":i,"other":j,"u":"%.6f"%(R*math.cos(a)),"v":"%.6f"%(R*math.sin(a)),"w":between(r,f["Z"])}
def turn(r,i,f):
    der=r.random()<.6
    return {"op":"turn","id":i,"u":"%.6f"%max(.05,float(between(r,f["R"],not der))),"v":"%.5f"%r.uniform(-7,7),"w":between(r,f["Z"],not der),"der":int(der)}
def full(r,i,f,n=4): return [{"op":"get","id":i},{"op":"nodes","id":i,"R":f["R"],"Z":f["Z"]}]+looks(r,i,f,n)
def variables(f,r=None):
    v={"name":f["name"],"desc":f["desc"],"maxis":f["axis"],"r":f["R"],"z":f["Z"],"Br":f["br"],"Bphi":f["bp"],"Bz":f["bz"]}
    if f["psi"]: v["Psi"]=f["psi"]
    for k,n in(("sep","separatrix"),("wall","wall")):
        if f[k]: v[n]=[list(x) for x in zip(*f[k])]
    return v
def tr(m): return [list(x) for x in zip(*m)]
def dress(r,v,f):
    """write the same field in another admissible way"""
    nr,nz=len(f["R"]),len(f["Z"]); v=copy.deepcopy(v)
    if nr!=nz:
        for k in("Br","Bphi","Bz","Psi"):
            if k in v and r.random()<.4: v[k]=tr(v[k])
    for k in("separatrix","wall"):
        if k in v and r.random()<.4 and len(v[k][0])!=2: v[k]=tr(v[k])
    for k,t in(("verBr","br"),("verBphi","bp"),("verBz","bz")):
        if r.random()<.4: v[k]=f[t][0][:r.randint(1,nr)]
    return v
def spoil(r,v):
    """one thing wrong with a file"""
    k=r.choice(["missing","axis","grid","short","shape","shape","both","bound","ver","verlong","level","nopsi"]); v=copy.deepcopy(v)
    if k=="missing": v.pop(r.choice(["name","desc","maxis","r","z","Br","Bphi","Bz"]),0)
    elif k=="axis": v["maxis"]=r.choice([[3],[3,0,1]])
    elif k=="grid":
        g=v[r.choice("rz")]; j=r.randrange(1,len(g)); q=r.random()
        if q<.4: g[j]=g[j-1]
        elif q<.7: g[j],g[j-1]=g[j-1],g[j]
        else: g.reverse()
    elif k=="short":
        n=r.choice([1,2,3])
        if r.random()<.5: v["r"]=v["r"][:n]; cut=lambda m:[x[:n] for x in m]
        else: v["z"]=v["z"][:n]; cut=lambda m:m[:n]
        for x in("Br","Bphi","Bz","Psi"):
            if x in v: v[x]=cut(v[x])
    elif k=="shape":
        x=r.choice([x for x in("Br","Bphi","Bz","Psi") if x in v]); q=r.random(); m=v[x]
        if q<.25: v[x]=m[:-1]
        elif q<.5: v[x]=[y[:-1] for y in m]
        elif q<.75: v[x]=m+[m[0]]
        else: v[x]=[y+[7] for y in m]
    elif k=="both": v.pop("wall",0); v.pop("separatrix",0)
    elif k=="bound":
        x=r.choice([x for x in("wall","separatrix") if x in v]); P=v[x] if len(v[x])==2 else tr(v[x])
        v[x]=r.choice([P[:1],tr(P[:1]),P+[P[0]],[y+[1] for y in tr(P)]])
        if len(P[0])==3: v[x]=P[:1]
    elif k=="ver": x=r.choice(["Br","Bphi","Bz"]); v["ver"+x]=[v[x][0][0]+1]
    elif k=="verlong": v["ver"+r.choice(["Br","Bphi","Bz"])]=[0]*(len(v["r"])+1)
    elif k=="level": v["maxis"]=[v["maxis"][0],50]
    elif k=="nopsi": v.pop("Psi",0)
    return v
FINE="1.0000000894069671630859375"     # needs more digits than single precision has
FILES=["a.h5","b.h5","a.sdt","b.sdt","per%scent%n.h5","50%d.sdt"]
def case(r):
    ops=[]; F={}; files={}; nxt=0; scale=r.choice(["1","0.25","2",FINE])
    def addf(i,f): F[i]=f
    for _ in range(r.choice([1,1,2,3])):
        f=field(r); k=r.random()
        if k<.45: ops.append(dict(f,op="new",id=nxt))
        else:
            fn=r.choice(FILES); ops+= [{"op":"write","file":fn,"vars":dress(r,variables(f),f)},{"op":"load","id":nxt,"file":fn}]; files[fn]=f
        addf(nxt,f); ops+=full(r,nxt,f,r.choice([4,10])); nxt+=1
    for _ in range(r.choice([2,5,12])):
        i=r.choice(list(F)); f=F[i]; k=r.random()
        if k<.2: ops.append({"op":"clone","id":i,"to":nxt,"base":int(r.random()<.5)}); addf(nxt,f); nxt+=1
        elif k<.4: fn=r.choice(FILES); ops.append({"op":"save","id":i,"file":fn}); files[fn]=f
        elif k<.6: 
            fn=r.choice(list(files) or FILES); ops.append({"op":"load","id":nxt,"file":fn})
            if fn in files: addf(nxt,files[fn]); nxt+=1
        elif k<.7:
            ops.append({"op":"del","id":i}); ops+=looks(r,i,f,1)
        elif k<.8:
            fn=r.choice(FILES); ops.append({"op":"write","file":fn,"vars":spoil(r,dress(r,variables(f),f))}); ops.append({"op":"load","id":nxt,"file":fn}); addf(nxt,f); nxt+=1; files[fn]=f
            if r.random()<.7: ops+=[{"op":"save","id":i,"file":fn},{"op":"load","id":nxt,"file":fn}]; addf(nxt,f); nxt+=1
        elif k<.87 and files:
            fn=r.choice(list(files)); ops.append({"op":"reload","id":i,"file":fn}); addf(i,files[fn])
        elif k<.93:
            g=copy.deepcopy(f); q=r.choice(["dup","short","none","level"])
            if q=="dup": g["R"][1]=g["R"][0]
            elif q=="short": g["Z"]=g["Z"][:3]; g["br"],g["bp"],g["bz"]=g["br"][:3],g["bp"][:3],g["bz"][:3]; g["psi"]=g["psi"][:3]
            elif q=="none": g["wall"]=g["sep"]=[]
            else: g["axis"]=[g["axis"][0],60]
            ops.append(dict(g,op="new",id=nxt)); nxt+=1
        j=r.choice(list(F)); ops+=looks(r,j,F[j],3)
        j=r.choice(list(F)); ops+=full(r,j,F[j],1); ops.append(turn(r,j,F[j]))
        ops.append(compare(r,j,r.choice(list(F)),F[j]))
    return {"scale":scale,"unit":r.choice(["1",FINE,FINE,"0.1"]),"ops":ops}
def spoil_trace(ev):
    for e in reversed(ev):
        if e["op"]=="nodes" and e["ret"]=="ok": e["bp"][0][0]+=1; return ev
        if e["op"]=="eval" and e["ret"]=="ok" : e["b"][0]+=1; return ev
def check_M01(ctx):
    d=ctx.n(4,5)
    em=model_check(ctx,"MCMagnetic","SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Coverage Kept Layout Turn Rim Div Emitted\nCHECK_DEADLOCK FALSE\n"%d,
        what="all histories of %d operations on three fields and two files: nothing is lost (Kept), storage order is immaterial (Layout), rotation and rim of the grid (Turn, Rim), Jacobian (Div)"%d)["emits"]
    b=build(ctx,"h_magnetic"); r=ctx.rng
    protos=[e for e in em if isinstance(e,dict)][0]["protos"]; hist=[e for e in em if not isinstance(e,dict)]
    def replay(h):
        ops=[]; o={}; fl={}
        for e in h:
            if e["op"]=="new": k=e["k"]-1; f=dict(protos[k]); f.pop("lin"); ops.append(dict(f,op="new",id=e["id"])); o[e["id"]]=f; continue
            q={k:v for k,v in e.items() if k!="ret"}
            if e["op"]=="clone": q["base"]=r.randint(0,1); o[e["to"]]=o[e["id"]]
            if e["op"]=="save": fl[e["file"]]=o[e["id"]]
            if e["op"] in("load","reload"): o[e["id"]]=fl[e["file"]]
            if e["op"]=="del": o.pop(e["id"])
            ops.append(q)
        for i,f in o.items(): ops+=full(r,i,f,3)+[turn(r,i,f)]
        for n,f in fl.items(): ops.append({"op":"load","id":9,"file":n}); ops+=full(r,9,f,2)
        return {"scale":"1","ops":ops}
    if not ctx.quick: hist=r.sample(hist,min(len(hist),8000))
    conformance(ctx,b,"TMagnetic",[replay(h) for h in hist],name="every history of the model",chunk=1500)
    cases=[case(r) for _ in range(ctx.n(1000,15000))]
    res=conformance(ctx,b,"TMagnetic",cases,name="random histories of fields and files",chunk=1500)
    binding_demo(ctx,"TMagnetic",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],spoil_trace)
    ctx.assumptions=["grids, axes and contours have whole coordinates (scaled by powers of two), components are whole numbers","between grid points exact values are decided for bilinear tables; for others rotation symmetry and agreement with copies","derivatives outside the grid are not specified"]
    return finish(ctx)

# ------------------------------------------------------------------ M02
XY=[(3,4,5),(4,3,5),(5,12,13),(12,5,13),(6,8,10),(8,6,10),(1,0,1),(0,2,2),(3,0,3),(0,4,4),(0,5,5),(6,0,6),(0,7,7),(8,0,8),(9,0,9),(0,11,11)]
import math
def ana(r,i):
    qt=r.choice(["const","lin","quad","exp","cur","cur"]); Rm=r.choice([4,5,6,7,10]); a=r.choice([1,2,3,Rm-1])
    p1=r.choice([[1,1],[2,1],[3,2],[1,2]]); p2=r.choice([[0,1],[1,1],[3,2],[2,1]])
    if qt=="exp": p1=[r.choice([1,1,0,-1]),1]
    if qt=="lin" or qt=="quad": p2=r.choice([[1,1],[2,1],[3,2]])
    if qt=="cur": p2=[r.choice([-1,1,1,2,2,3]),1]
    n=r.random()<.5
    return {"op":"ana","id":i,"B0":r.choice([1,2,3]),"Rm":Rm,"zm":r.choice([0,0,1,-2]),"a":a,"sB":r.choice([1,-1]),"sI":r.choice([1,-1]),"qt":qt,"p1":p1,"p2":p2,"named":int(n),
        "name":"my field" if n else "Analytical Magnetic Field","desc":"%d tesla" if n else "A magnetic field with a simple analytical description"}
def apt(r,m):
    far=max(2,min(m["a"],4))
    for _ in range(60):
        if r.random()<.35: c=r.choice([t for t in XY if abs(t[2]-m["Rm"])<=far] or XY)
        else:
            R=max(1,m["Rm"]+r.randint(-far,far)); c=r.choice([t for t in XY if t[2]==R] or [(R,0,R)])
        z=m["zm"]+r.randint(-far,far)
        d2=(c[2]-m["Rm"])**2+(z-m["zm"])**2; s=math.isqrt(d2)
        if r.random()<.1: z=m["zm"]; c=(0,m["Rm"],m["Rm"]); d2=s=0
        if m["qt"] in("lin","exp") or m["qt"]=="cur" and m["p2"][0]%2==1 and m["p2"][0]>0:
            if s*s!=d2: continue
        if m["qt"]=="cur" and m["p2"][0]>0:
            n=m["p2"][0]
            if 1-2/(n+2)*(math.sqrt(d2)/m["a"])**n<.2: continue
            if d2>9 and n==3: continue
        if m["qt"]=="exp" and s>5: continue
        return {"x":c[0]*r.choice([1,-1]),"y":c[1]*r.choice([1,-1]),"R":c[2],"z":z,"s":s if s*s==d2 else 0}
    return {"x":m["Rm"],"y":0,"R":m["Rm"],"z":m["zm"],"s":0}
def afd(r,m):
    rad=.95*m["a"]*math.sqrt(r.random()); t=r.uniform(0,6.3); R=m["Rm"]+rad*math.cos(t); z=m["zm"]+rad*math.sin(t); f=r.uniform(0,6.3)
    if rad<.05*m["a"]: R=m["Rm"]+.3*m["a"]
    return ["%.9f"%(R*math.cos(f)),"%.9f"%(R*math.sin(f)),"%.9f"%z]
def m02_case(r):
    ops=[]; M={}; nxt=0
    for _ in range(r.choice([1,2])):
        m=ana(r,nxt); ops.append(m); M[nxt]=m; nxt+=1
    for _ in range(r.choice([6,15,30])):
        i=r.choice(list(M)); m=M[i]; k=r.random()
        if k<.06: ops.append({"op":"clone","id":i,"to":nxt,"base":r.randint(0,1)}); M[nxt]=dict(m); nxt+=1
        elif k<.12: b=r.choice([1,2,3]); ops.append({"op":"setb0","id":i,"B0":b}); m["B0"] if False else None
        elif k<.15: ops.append({"op":"del","id":i})
        elif k<.22: ops.append({"op":"get","id":i})
        elif k<.26 and m["qt"]!="cur" and m["a"]<m["Rm"]: ops.append({"op":"num","id":i,"nr":r.choice([4,5,9,9,33,130]),"nz":r.choice([4,6,8,8,33,104])})
        elif k<.42: ops.append({"op":"fd","id":i,"p":afd(r,m)})
        else: ops.append(dict(apt(r,m),op=r.choice(["eval","der","der","flux","dflux"]),id=i,how=r.choice(["three","arr","vec"])))
    return {"ops":ops}
def spoil02(ev):
    for e in reversed(ev):
        if e["op"]=="flux" and e["ret"]=="ok": e["val"][0]+=7; return ev
        if e["op"]=="fd" and e["ret"]=="ok": e["same"][2]=False; return ev
def check_M02(ctx):
    model_check(ctx,"MCAnalytic","SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS Solenoidal Tangent OnSurface Winding Mirror Toroidal\nCHECK_DEADLOCK FALSE\n"%ctx.n(2,5),
        what="divergence free, tangent to the flux surfaces, winding q, mirror symmetry: all safety factor profiles, small parameters and points")
    b=build(ctx,"h_analytic"); r=ctx.rng
    cases=[m02_case(r) for _ in range(ctx.n(1500,20000))]
    res=conformance(ctx,b,"TAnalytic",cases,name="parameters, histories and points",chunk=1500)
    binding_demo(ctx,"TAnalytic",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],spoil02)
    ctx.assumptions=["exact values at points with rational coordinates, radius and safety factor; elsewhere agreement of Jacobian, curl, gradient, divergence and flux derivatives with the field and flux themselves (difference quotients, 1e-5)","field strength positive, points off the axis of symmetry"]
    return finish(ctx)

# ------------------------------------------------------------------ M03
XG=[[-2,-1,0,1],[-1,0,1,2],[-2,-1,1,2],[-3,-1,1,3],[-2,-1,0,1,2],[-3,-2,-1,0,1,2,3],[-3,-2,0,1,2]]
LF=["a.mat","b.mat","a.h5","EQUIL_b.h5","a.sdt","b.sdt"]; WF=["w.mat","w.h5","wall.sdt","w2.sdt"]
def equil(r):
    x=r.choice(XG); y=r.choice(XG); s=r.choice([1,1,2]); x=[s*v for v in x]; y=[s*v for v in y]
    P=polygon(r,[0,0],x,y)
    while len(P)<r.choice([4,5,7]) : P.append(list(P[r.randrange(len(P))]) if r.random()<.3 else list(P[-1]))
    nt=len(P); th=[0]+sorted(r.sample(range(1,8),nt-2))+[8]
    n=r.choice([2,3,4,5]); ps=[r.choice([0,0,1])]
    while len(ps)<n: ps.append(ps[-1]+r.choice([1,1,2,3]))
    sg=r.choice([1,-1]); ps=[sg*v for v in ps]
    tab=lambda: [[r.choice([0,r.randint(-9,9)]) for _ in range(n)] for _ in range(nt)]
    def contour(k): return [[(P[i][k] if j==n-1 else r.randint(-4,4)) for j in range(n)] for i in range(nt)]
    return {"id":r.choice(["TCV","JET 1","a b"]),"Rp":r.choice([8,9,12]),"Zp":r.choice([0,0,1,-2]),"x":x,"y":y,"xypsin":[[r.choice([0,1,2,3,4,4,5,6,-1,-3]) for _ in x] for _ in y],"psia":r.choice([1,-1,2,3]),
        "psi":ps,"theta":th,"ptBx":tab(),"ptBy":tab(),"ptBPHI":tab(),"ptx":contour(0),"pty":contour(1)}
def wallvars(r,v,bad=False):
    P=polygon(r,[v["Rp"],v["Zp"]],v["x"],v["y"]); m=[list(c) for c in zip(*P)]
    if bad: return r.choice([{}, {"wall":m+[m[0]]}, {"wall":[q+[1] for q in P]} , {"wall":m[:1]}])
    return {"wall":P if len(P)>2 and r.random()<.5 else m}
def fault(r,v,k):
    v=copy.deepcopy(v)
    if k[0]=="missing": v.pop(k[1],0)
    elif k[0]=="shape":
        m=v[k[1]]
        v[k[1]]=m[:-1] if k[2]=="row" else [q[:-1] for q in m] if k[2]=="col" else (m+[m[0]] if r.random()<.5 else [q+[1] for q in m]) if k[2]=="more" else tr(m)
    elif k[0]=="order":
        g=v[k[1]]=list(v[k[1]]); j=r.randrange(1,len(g))
        if r.random()<.4: g[j]=g[j-1]
        else: g.reverse()
        if k[1]=="psi" and g[-1]==0: g[-1]=1
    elif k[0]=="short":
        n=r.choice([1,2,3]) if k[1] in "xy" else 1
        v[k[1]]=v[k[1]][-n:]
        if k[1]=="x": v["xypsin"]=[q[:n] for q in v["xypsin"]]
        elif k[1]=="y": v["xypsin"]=v["xypsin"][:n]
        else:
            for t in("ptBx","ptBy","ptBPHI","ptx","pty"): v[t]=v[t][:1] if k[1]=="theta" else [q[-1:] for q in v[t]]
    elif k[0]=="zero": v["psi"]=v["psi"][:-1]+[0]
    elif k[0]=="level": v["pty"]=[[q+40 for q in w] for w in v["pty"]]
    return v
def eload(r,i,fn,w): return {"op":"load","id":i,"file":fn,"wall":w,"how":r.choice(["all","two","type","plain"])}
def elook(i,v): return [{"op":"get","id":i},{"op":"nodes","id":i,"R":[x+v["Rp"] for x in v["x"]],"Z":[y+v["Zp"] for y in v["y"]]}]
def m03_case(r,faults):
    ops=[]; files={}; walls={}; O={}; L=set(); nxt=0
    for _ in range(r.choice([1,2])):
        v=equil(r); fn=r.choice(LF); files[fn]=v; ops.append({"op":"write","file":fn,"vars":v})
    for _ in range(r.choice([2,5,9])):
        k=r.random(); fn=r.choice(list(files)); v=files[fn]
        if k<.15: w=r.choice(WF); bad=r.random()<.25; ops.append({"op":"write","file":w,"vars":wallvars(r,v,bad)}); walls[w]=1
        elif k<.45:
            w=r.choice(list(walls)) if walls and r.random()<.6 else r.choice(["","","",r.choice(WF)]); ops.append(eload(r,nxt,fn,w)); O[nxt]=v; L.add(nxt); nxt+=1
        elif k<.6 and faults:
            ops.append({"op":"write","file":fn,"vars":fault(r,v,r.choice(faults))}); ops.append(eload(r,nxt,fn,"")); O[nxt]=v; nxt+=1
            ops.append({"op":"write","file":fn,"vars":v}); ops.append(eload(r,nxt,fn,"")); O[nxt]=v; L.add(nxt); nxt+=1
        elif O:
            i=r.choice(list(O)); q=r.choice(["reload","wall","clone","convert","del"])
            if q=="reload": w=r.choice(list(walls)+["",""]); ops.append({"op":"reload","id":i,"file":fn,"wall":w,"how":r.choice(["all","two","type","plain"])}); O[i]=v
            elif q=="wall": ops.append({"op":"wall","id":i,"wall":r.choice(list(walls)+["","nofile.h5"]),"how":r.choice(["all","plain"])})
            elif q=="clone": ops.append({"op":"clone","id":i,"to":nxt,"base":r.randint(0,1)}); O[nxt]=O[i]; nxt+=1
            elif q=="convert": ops.append({"op":"convert","id":i,"to":nxt,"ext":r.choice(["h5","sdt","mat"])}); O[nxt]=O[i]; nxt+=1
            else: ops.append({"op":"del","id":i})
        for i in r.sample(list(O),min(2,len(O))): ops+=elook(i,O[i])
    return {"scale":r.choice(["1","0.25","2",FINE]),"ops":ops}
def spoil03(ev):
    for e in reversed(ev):
        if e["op"]=="nodes" and e["ret"]=="ok": e["psi"][0][0]+=777; return ev
def check_M03(ctx):
    fl=model_check(ctx,"MCEquilibrium","SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS Turn Mirror Ranged Scaled Ccw Linear Nodes Between Emitted\nCHECK_DEADLOCK FALSE\n"%ctx.n(4,12),
        what="angles of all points within three ticks (Turn, Mirror, Ccw), tables linear in flux and angle reproduced (Linear), values at and between tabulated points (Nodes, Between)")["emits"][0]
    b=build(ctx,"h_luke"); r=ctx.rng
    cases=[]
    for k in fl:
        for fn in LF[::2]:
            v=equil(r); o=[{"op":"write","file":fn,"vars":fault(r,v,k)},eload(r,0,fn,""),*elook(0,v),{"op":"write","file":fn,"vars":v},eload(r,1,fn,""),*elook(1,v)]; cases.append({"scale":"1","ops":o})
    conformance(ctx,b,"TEquilibrium",cases,name="every single fault of a file, then the file repaired",chunk=1500)
    cases=[m03_case(r,fl) for _ in range(ctx.n(1500,15000))]
    res=conformance(ctx,b,"TEquilibrium",cases,name="random histories of equilibria and wall files",chunk=1500)
    binding_demo(ctx,"TEquilibrium",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],spoil03)
    ctx.assumptions=["grid points whose angle has a tangent or cotangent of 0, 1, 1/2, 1/3 or 2/3; flux in quarters; the tabulated angles cover the turn","values between the points of the (R,Z) grid belong to M01"]
    return finish(ctx)
