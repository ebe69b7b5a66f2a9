"""D01-D03: the boundary of the device."""
from core import *
import math
def ring(r,ax,n,rmax,zr,star=True):
    """a closed polygon on the grid, winding once around the axis point: corners sorted by angle"""
    seen={}; tries=0
    while len(seen)<n and tries<60*n:
        tries+=1; p=(r.randint(1,rmax),r.randint(-zr,zr))
        if p==tuple(ax): continue
        dx,dz=p[0]-ax[0],p[1]-ax[1]; g=math.gcd(abs(dx),abs(dz)); seen.setdefault((dx//g,dz//g),p)
    pts=sorted(seen.values(),key=lambda p:math.atan2(p[1]-ax[1],p[0]-ax[0]))
    # the axis must be inside: no angular gap of half a turn or more
    ang=[math.atan2(p[1]-ax[1],p[0]-ax[0]) for p in pts]
    if len(pts)<3: return None
    gaps=[(ang[(i+1)%len(ang)]-ang[i])%(2*math.pi) for i in range(len(ang))]
    if max(gaps)>=math.pi-1e-9: return None
    return [list(p) for p in pts]
def comb(r,teeth,rmax,zr):
    """comb-shaped, rectangular edges: many edges parallel to each other and to the axes"""
    z0,z1=-zr,zr; x=1; top=[]; w=max(1,(rmax-1)//(2*teeth+1))
    poly=[[1,z0],[1+w*(2*teeth+1),z0]]
    xs=[1+w*i for i in range(2*teeth+2)][::-1]
    lo=r.randint(z0+2,z1-1)
    for i in range(len(xs)-1):
        h=z1 if i%2==0 else lo
        poly+= [[xs[i],h],[xs[i+1],h]]
    ax=[1+w*teeth,r.randint(z0+1,lo-1)]
    return dedupe(poly),ax
def dedupe(p):
    o=[]
    for q in p:
        if not o or o[-1]!=q: o.append(q)
    return o
def steplimit(poly,m):
    """subdivide so that no edge spans more than m grid units (then all level values are multiples of 1/840)"""
    n=len(poly)
    for i in range(n):
        a,b=poly[i],poly[(i+1)%n]
        if max(abs(a[0]-b[0]),abs(a[1]-b[1]))>m: return False
    return True
def boundary(r,rmax,zr,maxn=40):
    while True:
        k=r.random()
        if k<.15:
            a,b=sorted(r.sample(range(1,rmax+1),2)) if rmax>2 else (1,rmax)
            c,d=sorted(r.sample(range(-zr,zr+1),2))
            if b-a<2 or d-c<2: continue
            poly=[[a,c],[b,c],[b,d],[a,d]]; ax=[r.randint(a+1,b-1),r.randint(c+1,d-1)]
        elif k<.3 and rmax>=8 and zr>=3: poly,ax=comb(r,r.randint(1,(rmax-2)//2 if rmax<12 else 4),rmax,zr)
        else:
            ax=[r.randint(2,max(2,rmax-1)),r.randint(-zr+1,zr-1)]
            poly=ring(r,ax,r.choice([3,4,5,6,8,12,20,34,maxn]),rmax,zr)
            if not poly: continue
        if r.random()<.3:   # corners on an edge and repeated corners
            i=r.randrange(len(poly)); a,b=poly[i],poly[(i+1)%len(poly)]
            g=math.gcd(abs(a[0]-b[0]),abs(a[1]-b[1]))
            if g>1: m=r.randint(1,g-1); poly.insert(i+1,[a[0]+(b[0]-a[0])//g*m,a[1]+(b[1]-a[1])//g*m])
            elif r.random()<.3: poly.insert(i,list(poly[i]))
        s=r.randrange(len(poly)); poly=poly[s:]+poly[:s]
        if r.random()<.5: poly.reverse()
        if r.random()<.5: poly.append(list(poly[0]))
        return poly,ax
def ang(r): return r.choice(["0","0",repr(r.uniform(-7,7)),repr(math.pi/2),repr(math.pi)])
def frame(r):
    k=r.random()
    if k<.5: return {"scale":"1","shift":0},True
    if k<.75: return {"scale":r.choice(["0.5","0.0625","4","1024","9.094947017729282379150390625e-13","1099511627776"]),"shift":r.randint(-20,20)},True
    return {"scale":r.choice(["0.1","0.37","3.3","1e-3","250.7","1e-9","3e8"]),"shift":r.choice(["0","0.3","-7.7"])},False
def near(r,poly,ax,rmax,zr):
    """points of interest: anywhere, next to a corner, on the level of a corner or of the axis"""
    k=r.random(); p=[r.randint(0,rmax+2),r.randint(-zr-2,zr+2)]
    if k<.3: c=r.choice(poly); p=[max(0,c[0]+r.randint(-1,1)),c[1]+r.randint(-1,1)]
    elif k<.45: p[1]=r.choice(poly)[1]
    elif k<.6: p[0]=r.choice(poly)[0]
    elif k<.7: p[1]=ax[1]
    elif k<.75: p[0]=ax[0]
    return p
def plane_case(r,nq,rmax,zr,sets=1):
    fr,ex=frame(r); c=dict(fr); ops=[]
    for _ in range(sets):
        poly,ax=boundary(r,rmax,zr); ops.append({"op":"set","poly":poly,"ax":ax})
        for _ in range(nq):
            h=[ang(r),ang(r)]; sure=ex and h==["0","0"]
            if r.random()<.4: ops.append({"op":"inside","q":near(r,poly,ax,rmax,zr),"ph":h,"sure":sure})
            else:
                p,q=near(r,poly,ax,rmax,zr),near(r,poly,ax,rmax,zr)
                if r.random()<.3: q=[max(0,p[0]+r.randint(-3,3)),p[1]+r.randint(-3,3)]
                ops.append({"op":"cross","p":p,"q":q,"ph":h,"sure":sure})
    c["ops"]=ops; return c
def ext_case(r,nset,nq):
    fr,ex=frame(r); c=dict(fr); ops=[]
    for _ in range(nset):
        while True:
            m=r.choice([3,5,8]); poly,ax=boundary(r,m+1,m//2 if r.random()<.5 else m)
            # move it about, so that successive boundaries have nothing in common
            dr,dz=r.choice([0,0,3,20,60]),r.choice([0,0,-40,-7,9,40])
            poly=[[p[0]+dr,p[1]+dz] for p in poly]; ax=[ax[0]+dr,ax[1]+dz]
            if steplimit(poly,8): break
        ops.append({"op":"set","poly":poly,"ax":ax})
        lo,hi=min(p[0] for p in poly),max(p[0] for p in poly); zl,zh=min(p[1] for p in poly),max(p[1] for p in poly)
        for _ in range(r.randint(0,nq)):
            k=r.random()
            if k<.3: ops.append({"op":"bounds"})
            elif k<.55: ops.append({"op":"radius","how":r.choice(["getmin","find","findmin","getmax"])})
            elif k<.75: ops.append({"op":"maxz","how":r.choice(["","args"]),"at":r.randint(max(0,lo-1),hi+1)})
            elif k<.95: ops.append({"op":"minmax","at":r.randint(zl-1,zh+1)})
            else: ops.append({"op":"getters"})
    if not ex:
        # an inexact frame moves levels off the corners by rounding; stay with the exact ones
        c["scale"],c["shift"]="1",0
    c["ops"]=ops; return c
def los_case(r,nq):
    fr,ex=frame(r); c=dict(fr); ops=[]
    poly,ax=boundary(r,5,5,r.choice([16,16,24]))
    if r.random()<.05:      # very many corners: some of them repeated
        n=r.choice([41,65,129,257]); i=r.randrange(len(poly)) if r.random()<.7 else 0
        while len(poly)<n: poly[i:i]=[list(poly[i]) for _ in range(min(n-len(poly),r.choice([1,9,n])))]; i=r.randrange(len(poly))
    ops.append({"op":"set","poly":poly,"ax":ax})
    def pt():
        k=r.random(); p=[r.randint(-5,5),r.randint(-5,5),r.randint(-5,5)]
        if k<.15: p[1]=0
        elif k<.25: p[2]=ax[1]
        elif k<.35: p[0]=p[1]=0
        return p
    for _ in range(nq):
        p,q=pt(),pt(); k=r.random()
        if k<.1: q[2]=p[2]
        elif k<.2: q[:2]=p[:2]
        elif k<.35: q=[max(-5,min(5,x+r.randint(-1,1))) for x in p]
        if p==q: continue
        ops.append({"op":"los","p":p,"q":q,"ph":"0" if r.random()<.5 else ang(r),"wall":r.random()<.7})
    c["ops"]=ops; return c
INV={"D01":"Symmetric SameSide ConvexTri","D02":"Extents","D03":"Planar Spatial SameSide3"}
def model(ctx):
    g=ctx.n(3,4)
    cfg="SPECIFICATION Spec\nCONSTANT G = %d\nCONSTANT W <- WQ\nCONSTANT LX <- LQ\nINVARIANTS Emitted %s\nCHECK_DEADLOCK FALSE\n"%(g,INV[ctx.pid])
    return model_check(ctx,"MCDomain",cfg,what="all triangles and selected polygons of a %dx%d grid, all pairs of points: %s"%(g,g,INV[ctx.pid]))["emits"]
def flip(ev):
    for e in reversed(ev):
        if e["op"] in("cross","inside","los") and len(e["res"])>0 and len(set(e["res"]))==1:
            e["res"]=["no" if x=="yes" else "yes" for x in e["res"]]; return ev
def shift(ev):
    for e in reversed(ev):
        if e["op"] in("bounds","radius","maxz","minmax") and e["res"]: e["res"][0]=e["res"][0]+1 if isinstance(e["res"][0],int) else 0; return ev
def check_D01(ctx):
    em=model(ctx); b=build(ctx,"h_domain"); r=ctx.rng
    g=ctx.n(3,4); pts=[[x,z] for x in range(1,g+1) for z in range(g)]
    cases=[]
    if not ctx.quick: em=r.sample(em,1500)
    for P in em:
        qs=[(p,q) for p in pts for q in pts]
        if not ctx.quick: qs=r.sample(qs,80)
        cases.append({"scale":"1","shift":0,"ops":[{"op":"set","poly":P,"ax":P[0]}]+[{"op":"cross","p":p,"q":q,"ph":["0","0"],"sure":True} for p,q in qs]})
    conformance(ctx,b,"TDomain",cases,name="every boundary of the model")
    cases=[plane_case(r,40,r.choice([4,6,10,30]),r.choice([3,5,20]),r.choice([1,1,2])) for _ in range(ctx.n(500,6000))]
    res=conformance(ctx,b,"TDomain",cases,name="random boundaries",chunk=1500)
    binding_demo(ctx,"TDomain",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],flip)
    ctx.assumptions=["points and corners lie on a grid (scaled, shifted and rotated); configurations not in general position accept either answer"]
    return finish(ctx)
def check_D02(ctx):
    em=model(ctx); b=build(ctx,"h_domain"); r=ctx.rng
    cases=[]
    for k in range(0,len(em),2):
        ops=[]
        for P in em[k:k+2]:
            ops.append({"op":"set","poly":P,"ax":P[0]})
            ops+=[{"op":"bounds"},{"op":"radius","how":r.choice(["getmin","find","findmin","getmax"])},{"op":"getters"}]
            ops+=[{"op":"maxz","how":"","at":x} for x in range(0,5)]+[{"op":"minmax","at":z} for z in range(-1,5)]
        cases.append({"scale":"1","shift":0,"ops":ops})
    if not ctx.quick: cases=r.sample(cases,1500)
    conformance(ctx,b,"TDomain",cases,name="every boundary of the model, in pairs")
    cases=[ext_case(r,r.choice([1,2,3,6]),10) for _ in range(ctx.n(1500,20000))]
    res=conformance(ctx,b,"TDomain",cases,name="random histories of boundaries and queries",chunk=4000)
    binding_demo(ctx,"TDomain",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],shift)
    ctx.assumptions=["the magnetic axis lies within the boundary whenever a boundary is set","edges span at most 8 grid units"]
    return finish(ctx)
def check_D03(ctx):
    em=model(ctx); b=build(ctx,"h_domain"); r=ctx.rng
    cases=[]
    for P in em if ctx.quick else r.sample(em,1500):
        ops=[{"op":"set","poly":P,"ax":P[0]}]
        for _ in range(25):
            p,q=[r.randint(-4,4),r.randint(-4,4),r.randint(-1,4)],[r.randint(-4,4),r.randint(-4,4),r.randint(-1,4)]
            if p!=q: ops.append({"op":"los","p":p,"q":q,"ph":"0","wall":r.random()<.7})
        cases.append({"scale":"1","shift":0,"ops":ops})
    conformance(ctx,b,"TDomain",cases,name="every boundary of the model")
    cases=[los_case(r,50) for _ in range(ctx.n(700,10000))]
    res=conformance(ctx,b,"TDomain",cases,name="random boundaries",chunk=1500)
    binding_demo(ctx,"TDomain",[(c["id"],res[c["id"]]) for c in cases[:60] if res.get(c["id"])],flip)
    ctx.assumptions=["coordinates are grid values of magnitude at most 5 (scaled, shifted and rotated); configurations not in general position accept either answer"]
    return finish(ctx)
