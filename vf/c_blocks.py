"""C05-C08: configuration objects (blocks, settings, merges, copies, lookups)."""
from core import *
import gen
class N:  # structural mirror, only used to generate valid calls
    __slots__=("ty","name","sets","subs")
    def __init__(s,ty,name): s.ty=ty; s.name=name; s.sets=[]; s.subs=[]
    def find(s,ty,name):
        for c in s.subs:
            if c.ty==ty and c.name==name: return c
    def copy(s):
        n=N(s.ty,s.name); n.sets=list(s.sets); n.subs=[c.copy() for c in s.subs]; return n
    def merge(s,b,allow):
        if allow: s.sets+= [x for x in b.sets if x not in s.sets]
        for c in b.subs:
            m=s.find(c.ty,c.name)
            if m: m.merge(c,allow)
            elif allow: s.subs.append(c.copy())
    def size(s): return 1+len(s.sets)+sum(c.size() for c in s.subs)
def pools(r):
    k=r.random()
    if k<0.4: nm=["a","b","c"]
    elif k<0.6: nm=["a","A","ab","abc","a ","b"]
    elif k<0.75: nm=["x"*15,"x"*16,"x"*17,"y"*40,"y"*41,"n","n1","n10"]
    else: nm=[gen.word(r,1,10) for _ in range(5)]+[w for w in r.sample([x for x in gen.dictionary()["strs"] if x.isascii() and x.isprintable() and x and '"' not in x and "\\" not in x],3)]+["n%d"%i for i in range(6)]
    k=r.random()
    bn=["p","q"] if k<0.5 else ["p","P","pq","<root>","p1"] if k<0.8 else list(nm)
    tn=["T","U","V"] if r.random()<0.6 else ["T","t","TT","@T","@"+gen.word(r,1,5,"abcXY"),"x"*20]
    return nm,bn,tn
BASE=dict(new=2,register=2,seterr=.3,addset=6,addsub=4,graft=1,addcopy=1,get=2,index=1,append=1,probe=2,merge=1,mergeblk=.5,copy=1,destroy=.5,load=.7)
def history(r,nops,weights,maxnodes=60,NS=3):
    nm,bn,tn=pools(r); st=[None]*(NS+1); types=[None]*(NS+1); ops=[]
    w=dict(BASE); w.update(weights); kinds=list(w); ws=[w[k] for k in kinds]
    def paths(n,p=()):
        yield list(p),n
        for i,c in enumerate(n.subs): yield from paths(c,p+(i+1,))
    def pick(s):
        l=list(paths(st[s])); return r.choice(l) if r.random()<0.7 else max(r.sample(l,min(3,len(l))),key=lambda x:len(x[0]))
    vals=lambda: [r.choice(["1","2","x","", "3.5","yes","a b","w"*30]) for _ in range(r.choice([1,1,1,2,3,r.randint(1,12)]))]
    def body(d,nt):
        o=[]
        for _ in range(r.randint(0,5)):
            if d>0 and nt>1 and r.random()<0.4: o.append({"k":"blk","ty":r.randrange(1,nt),"name":r.choice(bn),"sec":r.choice(["","","s1","s2"]),"body":body(d-1,nt)})
            else: o.append({"k":"set","name":r.choice([x for x in nm]),"vals":vals()})
        return o
    def apply(n,b):
        for x in b:
            if x["k"]=="set":
                if x["name"] not in n.sets: n.sets.append(x["name"])
            else:
                c=n.find(x["ty"],x["name"])
                if not c: c=N(x["ty"],x["name"]); n.subs.append(c)
                apply(c,x["body"])
    while len(ops)<nops:
        live=[s for s in range(1,NS+1) if st[s]]; dead=[s for s in range(1,NS+1) if not st[s]]
        k=r.choices(kinds,ws)[0]
        if not live: k="new"
        if k in("new","copy") and not dead: continue
        if k in("graft","addcopy","merge","mergeblk") and len(live)<2: k="new"
        if k=="new":
            s=r.choice(dead); st[s]=N(0,"<root>"); types[s]=["/root"]; ops.append({"op":"new","s":s}); continue
        s=r.choice(live); o={"op":k,"s":s}
        if k in("graft","addcopy","merge","mergeblk"):
            d=r.choice([x for x in live if x!=s]); o["s2"]=d
        if k=="register":
            n=r.choice(tn+["/root"]); o["name"]=n
            if n not in types[s]: types[s].append(n)
        elif k=="load":
            bd=body(2,len(types[s])); 
            if any(n in types[s] for n in nm): continue
            o["stmts"]=bd; st[s]=N(0,"<root>"); apply(st[s],bd)
        elif k=="copy":
            d=r.choice(dead); o={"op":"copy","s":d,"s2":s}; st[d]=st[s].copy(); types[d]=list(types[s])
        elif k=="destroy":
            if r.random()<0.5 and len(live)<2: continue
            st[s]=None
        elif k=="merge":
            o["allow"]=r.random()<0.5
            m=st[s].copy(); m.merge(st[d],o["allow"])
            if m.size()>maxnodes: continue
            st[s]=m
        elif k in("addset","addsub","get","index","append","probe","graft","mergeblk","addcopy"):
            p,n=pick(s); o["path"]=p
            if k in("graft","mergeblk","addcopy"): p2,b=pick(d); o["path2"]=p2
            if k in("addset","addsub","graft") and st[s].size()>maxnodes: continue
            if k=="addset":
                o["name"]=r.choice(nm); o["vals"]=vals() if r.random()<.85 else []
                if o["name"] not in n.sets: n.sets.append(o["name"])
            elif k=="addsub":
                o["ty"]=r.choice([0,1,1,2,2,3,7]); o["name"]=r.choice(bn); o["sec"]=r.choice(["","sec",o["name"]])
                if not n.find(o["ty"],o["name"]): n.subs.append(N(o["ty"],o["name"]))
            elif k in("get","index"): o["name"]=r.choice(nm+["zz"]) if r.random()<.4 or not n.sets else r.choice(n.sets)
            elif k=="append": o["name"]=r.choice(nm); o["val"]=r.choice(["9","z"])
            elif k=="probe":
                o["names"]=r.sample(nm,min(3,len(nm)))+["zz"]
                o["blocks"]=[{"ty":c.ty,"name":c.name} for c in r.sample(n.subs,min(2,len(n.subs)))]+[{"ty":r.choice([0,1,2,3,7]),"name":r.choice(bn)} for _ in range(2)]+[{"ty":n.ty,"name":n.name}]
                o["tys"]=[0,1,2,3,7]; o["tnames"]=r.sample(tn,2)+["/root","nope"]
            elif k=="graft":
                if not n.find(b.ty,b.name): n.subs.append(b.copy())
            elif k=="mergeblk":
                o["allow"]=r.random()<0.5
                m=n.copy(); m.merge(b,o["allow"])
                if m.size()>maxnodes: continue
                n.sets=m.sets; n.subs=m.subs
            elif k=="addcopy":
                if not b.sets: continue
                o["k"]=r.randint(1,len(b.sets)); x=b.sets[o["k"]-1]
                if x not in n.sets: n.sets.append(x)
        ops.append(o)
    return {"ops":ops}
def wide(r,n,kind):
    """two large configurations overlapping in part, then the operation under test, then lookups"""
    ops=[{"op":"new","s":1},{"op":"new","s":2},{"op":"register","s":1,"name":"T"},{"op":"register","s":2,"name":"T"}]
    def stm(lo,hi,v,deep):
        b=[{"k":"set","name":"n%d"%i,"vals":[v+str(i)]} for i in range(lo,hi)]
        if deep: b+= [{"k":"blk","ty":1,"name":"b%d"%i,"sec":r.choice(["","s1"]),"body":[{"k":"set","name":"q%d"%(i%3),"vals":[v]}]} for i in range(lo,hi)]
        return b
    def nest(d,v):
        b=[{"k":"set","name":"leaf","vals":[v]}]
        for i in range(d): b=[{"k":"set","name":"l%d"%(i%2),"vals":[v]},{"k":"blk","ty":1,"name":"b%d"%(i%2),"sec":"","body":b}]
        return b
    if kind=="deep":
        ops+= [{"op":"load","s":1,"stmts":nest(n,"x")},{"op":"load","s":2,"stmts":nest(max(n-1,0) if r.random()<.5 else n,"y")}]
    else:
        ops+= [{"op":"load","s":1,"stmts":stm(0,n,"x",True)},{"op":"load","s":2,"stmts":stm(n//2,n//2+n,"y",True)}]
    m=r.choice(["m0","m1","c","cm"])
    if m[0]=="m": ops.append({"op":"merge","s":1,"s2":2,"allow":m=="m1"})
    if m[0]=="c":
        ops.append({"op":"copy","s":3,"s2":1})
        if m=="cm": ops.append({"op":"merge","s":3,"s2":2,"allow":True})
    if r.random()<.5: ops.append({"op":"destroy","s":2})
    t=1 if m[0]=="m" else 3
    for i in r.sample(range(max(n,1)),min(3,n)): ops.append({"op":"get","s":t,"path":[],"name":"n%d"%i})
    return {"ops":ops}
def many(r,n,kind):
    """entries added one by one through the interface, then lookups over all of them, then doubles"""
    ops=[{"op":"new","s":1}]; tys=["t%d"%i for i in range(n)]
    if kind=="types":
        ops+=[{"op":"register","s":1,"name":t} for t in tys]
        ops.append({"op":"probe","s":1,"path":[],"names":["zz"],"blocks":[],"tys":[0,1],"tnames":tys+["/root","nope"]})
        ops+=[{"op":"register","s":1,"name":t} for t in [tys[0],tys[-1],r.choice(tys),"/root"]]
        return {"ops":ops}
    k=range(n)
    if kind=="sets":
        ops+=[{"op":"addset","s":1,"path":[],"name":"n%d"%i,"vals":["x%d"%i]} for i in k]
        ops.append({"op":"probe","s":1,"path":[],"names":["n%d"%i for i in k]+["zz"],"blocks":[],"tys":[0],"tnames":["/root"]})
        ops+=[{"op":"addset","s":1,"path":[],"name":"n%d"%i,"vals":["y"]} for i in (0,n-1,r.randrange(n))]
        ops+=[{"op":"get","s":1,"path":[],"name":"n%d"%i} for i in (0,n-1,r.randrange(n))]
    else:
        ops+=[{"op":"addsub","s":1,"path":[],"ty":i%3,"name":"b%d"%(i//2),"sec":""} for i in k]
        ops.append({"op":"probe","s":1,"path":[],"names":["zz"],"blocks":[{"ty":t,"name":"b%d"%(i//2)} for i in k for t in (i%3,(i+1)%3)],"tys":[0,1,2,3],"tnames":["/root"]})
        ops+=[{"op":"addsub","s":1,"path":[],"ty":i%3,"name":"b%d"%(i//2),"sec":"q"} for i in (0,n-1,r.randrange(n))]
    return {"ops":ops}
def model(ctx):
    model_check(ctx,"MCConfigBlocks",what="two configurations, histories up to 5 calls, all reachable forests; merge, copy, uniqueness, isolation and use-tracking laws")
    r=model_check(ctx,"MCConfigBlocks","CovConfigBlocks.cfg",what="one history per distinct forest reachable in 4 calls, replayed in the code")
    h=[{"ops":e} for e in r["emits"]]
    if ctx.quick: h=ctx.rng.sample(h,min(len(h),2500))
    s=model_check(ctx,"MCConfigBlocks","SimConfigBlocks.cfg",args=("-simulate","num=%d"%ctx.n(40,500),"-depth","22","-seed",str(ctx.seed)),what="random histories of 20 calls over three configurations, replayed in the code")
    return h+[{"ops":e} for e in s["emits"]]
def corrupt(ev):
    e=ev[-1]
    for o in e["obs"]:
        if o["live"]: o["tree"]["sec"]+="!"; return ev
def go(ctx,weights,name):
    b=build(ctx,"h_blocks"); r=ctx.rng
    cases=model(ctx)
    for _ in range(ctx.n(1500,12000)): cases.append(history(r,r.choice([6,12,25]),weights))
    for _ in range(ctx.n(60,800)): cases.append(history(r,80,weights,maxnodes=90))
    for n in gen.sizes(ctx.n(70,260)): cases.append(wide(r,n,"wide"))
    for n in [x for x in gen.sizes(ctx.n(40,70))]: cases.append(wide(r,n,"deep"))
    for n in [x for x in gen.sizes(ctx.n(70,130)) if x>0]+[257]:
        k=[q for q in("types","sets","subs") if name.startswith("lookup") and (n<70 or q=="types") or r.random()<.2 and n<70]
        for q in k: cases.append(many(r,n,q))
    res=conformance(ctx,b,"TConfigBlocks",cases,name=name,chunk=4000)
    binding_demo(ctx,"TConfigBlocks",[(i,ev) for i,ev in traces_of(res,150) if ev],corrupt)
def check_C05(ctx): go(ctx,dict(merge=6,mergeblk=3,addset=8,addsub=6,graft=0.5,probe=.5,load=3,get=1),"merge histories")
def check_C06(ctx): go(ctx,dict(get=6,index=4,append=2,load=3,merge=2,copy=2,addset=6,addcopy=2),"use histories")
def check_C07(ctx): go(ctx,dict(copy=5,graft=4,addcopy=4,destroy=3,append=3,addset=6,addsub=5,register=3),"copy histories")
def check_C08(ctx): go(ctx,dict(probe=8,register=5,get=3,index=3,addsub=8),"lookup histories")
